------------------------------- MODULE Client -------------------------------
(* The client as the owner of its components: initialize starts all of them, *)
(* close stops all of them, and in between the client answers requests.      *)
(*   c: quant, pers: does the client have a quantizer, a persistence manager;*)
(*      keep: does the storage keep its content when closed                  *)
(*   s: open "yes" | "no" | "unknown" (after a failed initialize of an open  *)
(*      client, or a failed close); n: number of stored vectors (-1: unknown)*)
EXTENDS Integers, FiniteSets, Sequences, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Parts(c) == {"storage", "index"} \cup (IF c.quant THEN {"quantization"} ELSE {})
                                 \cup (IF c.pers THEN {"persistence"} ELSE {})
CInit == [open |-> "no", n |-> 0]
Requests == {"insert", "search", "update", "delete", "stats"}
Step(c, s, e) ==
  CASE e.op = "init" ->         \* fail: the part whose initialize fails, or ""
         IF e.fail = ""
         THEN IF e.r = "ok" THEN {[open |-> "yes", n |-> IF c.keep THEN s.n ELSE 0]} ELSE {}
         ELSE IF e.r # "err" THEN {}
              ELSE {[open |-> IF s.open = "no" THEN "no" ELSE "unknown",
                     n |-> IF c.keep THEN s.n ELSE IF s.open = "no" THEN 0 ELSE -1]}
    [] e.op = "close" ->
         IF e.fail = ""
         THEN IF e.r = "ok" THEN {[open |-> "no", n |-> IF c.keep THEN s.n ELSE 0]} ELSE {}
         ELSE {[open |-> "unknown", n |-> IF c.keep THEN s.n ELSE -1]}
    [] e.op = "new" -> {[open |-> "no", n |-> IF c.keep THEN s.n ELSE 0]}
    [] e.op \in Requests /\ s.open = "no" -> IF e.r = "err" THEN {s} ELSE {}
    [] e.op \in Requests /\ s.open = "unknown" -> {}    \* not asked
    [] e.op = "insert" -> IF e.r = "ok" /\ e.ids = e.cnt THEN {[s EXCEPT !.n = @ + e.cnt]} ELSE {}
    [] e.op = "search" -> IF e.r = "ok" /\ e.hits = (IF e.k < s.n THEN e.k ELSE s.n) THEN {s} ELSE {}
    [] e.op = "update" -> IF e.r = "ok" THEN {s} ELSE {}
    [] e.op = "delete" -> IF e.r = "ok" THEN {[s EXCEPT !.n = @ - 1]} ELSE {}
    [] e.op = "stats" -> IF e.r = "ok" /\ SeqSet(e.parts) = Parts(c) /\ e.n = s.n /\ e.stored = s.n
                         THEN {s} ELSE {}
    [] e.op = "up" ->          \* which parts are initialized
         CASE s.open = "yes" -> IF SeqSet(e.up) = Parts(c) THEN {s} ELSE {}
           [] s.open = "no" /\ e.after = "close" -> IF e.up = <<>> THEN {s} ELSE {}
           [] OTHER -> {s}
=============================================================================
