------------------------------- MODULE Batch -------------------------------
(* Batch runs over a client.  The items of a run are numbered 1..n, item i  *)
(* is the vector with token i of that run and has metadata token ms[i] (0 =  *)
(* None).  State: kv, id token -> <<run, item, metadata>>.                  *)
(*                                                                          *)
(* A run e: mode "insert" | "parallel" | "search", n, size (batch size),    *)
(* bad (items the client rejects), failcall (calls of the client that fail, *)
(* numbered by batch), ms, r ("ok" | "raised": a callback raised), ids,     *)
(* total/processed/failed of the statistics, errs (items passed to the      *)
(* error callback), prog (pairs passed to the progress callback),           *)
(* show/shown (progress lines were asked for / printed: <<permille,          *)
(* processed, total, failed>>), rate (reported items per second times the   *)
(* reported time, -1 when no time passed), res/ref (search: what each query returned, and what it returns alone).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
Empty == [x \in {} |-> <<0, 0, 0>>]
BatchOf(e, i) == (i - 1) \div e.size + 1
NBatches(e) == (e.n + e.size - 1) \div e.size
ItemsOf(e, b) == {i \in 1..e.n : BatchOf(e, i) = b}
Good(e, b) == b \notin SeqSet(e.failcall) /\ ItemsOf(e, b) \cap SeqSet(e.bad) = {}
GoodItem(e, i) == IF e.mode = "search" THEN i \notin SeqSet(e.bad) ELSE Good(e, BatchOf(e, i))
GoodItems(e) == {i \in 1..e.n : GoodItem(e, i)}
(* the j-th successful item *)
RECURSIVE Nth(_, _, _)
Nth(e, i, j) == IF ~GoodItem(e, i) THEN Nth(e, i + 1, j)
                ELSE IF j = 1 THEN i ELSE Nth(e, i + 1, j - 1)
MetaAt(e, i) == IF i <= Len(e.ms) THEN e.ms[i] ELSE 0

IdsOK(s, e) ==
  /\ Len(e.ids) = Cardinality(GoodItems(e))
  /\ Cardinality(SeqSet(e.ids)) = Len(e.ids)
  /\ SeqSet(e.ids) \cap DOMAIN s.kv = {}
Stored(s, e) ==
  [x \in DOMAIN s.kv \cup SeqSet(e.ids) |->
     IF x \in DOMAIN s.kv THEN s.kv[x]
     ELSE LET j == CHOOSE j \in 1..Len(e.ids) : e.ids[j] = x
              i == Nth(e, 1, j) IN <<e.run, i, MetaAt(e, i)>>]
StatsOK(e) ==
  /\ e.total = e.n
  /\ e.processed = Cardinality(GoodItems(e))
  /\ e.failed = e.n - Cardinality(GoodItems(e))
ErrsOK(e) ==       \* every failed item is reported exactly once
  /\ Cardinality(SeqSet(e.errs)) = Len(e.errs)
  /\ SeqSet(e.errs) = (1..e.n) \ GoodItems(e)
ProgOK(e) ==
  /\ \A i \in 1..Len(e.prog) : e.prog[i][2] = e.n /\ e.prog[i][1] <= e.n /\ e.prog[i][1] >= 0
  /\ \A i, j \in 1..Len(e.prog) : i < j => e.prog[i][1] <= e.prog[j][1]
  /\ e.n > 0 /\ Cardinality(GoodItems(e)) > 0 => Len(e.prog) > 0
  /\ Len(e.prog) > 0 => e.prog[Len(e.prog)][1] = Cardinality(GoodItems(e))
ShownOK(e) ==
  /\ ~e.show => e.shown = <<>>
  /\ \A i \in 1..Len(e.shown) : LET p == e.shown[i] IN
       /\ p[3] = e.n /\ p[2] >= 0 /\ p[4] >= 0 /\ p[2] + p[4] <= e.n
       /\ p[1] * e.n - 1000 * p[2] <= e.n /\ 1000 * p[2] - p[1] * e.n <= e.n
  /\ \A i, j \in 1..Len(e.shown) : i < j => e.shown[i][2] <= e.shown[j][2] /\ e.shown[i][4] <= e.shown[j][4]
  /\ e.show /\ Cardinality(GoodItems(e)) > 0 => Len(e.shown) > 0
  /\ Len(e.shown) > 0 => /\ e.shown[Len(e.shown)][2] = Cardinality(GoodItems(e))
                         /\ e.mode # "insert" => e.shown[Len(e.shown)][4] = e.n - Cardinality(GoodItems(e))
RateOK(e) == e.rate = -1 \/ e.rate = Cardinality(GoodItems(e))
ResOK(e) ==
  /\ Len(e.res) = e.n
  /\ \A i \in 1..e.n : e.res[i] = IF GoodItem(e, i) THEN e.ref[i] ELSE <<>>

Faults(s, e) ==
  CASE e.op = "run" /\ e.r = "ok" ->
         (IF StatsOK(e) THEN {} ELSE {"statistics"}) \cup
         (IF RateOK(e) THEN {} ELSE {"rate"}) \cup
         (IF ShownOK(e) THEN {} ELSE {"printed progress"}) \cup
         (IF ErrsOK(e) \/ ~e.cb \/ e.raising THEN {} ELSE {"errors"}) \cup
         (IF ProgOK(e) \/ ~e.cb THEN {} ELSE {"progress"}) \cup
         (IF e.mode = "search" THEN IF ResOK(e) THEN {} ELSE {"results"}
          ELSE IF IdsOK(s, e) THEN {} ELSE {"ids"})
    [] e.op = "run" /\ e.r = "raised" ->      \* a callback raised: nothing counted twice
         IF e.raising /\ e.processed + e.failed <= e.n /\ e.total = e.n /\
            e.processed <= Cardinality(GoodItems(e)) /\
            e.failed <= e.n - Cardinality(GoodItems(e)) THEN {} ELSE {"raised"}
    [] e.op = "run" -> {"error"}
    [] e.op = "content" ->       \* everything the database holds
         IF /\ Cardinality({e.recs[i][1] : i \in 1..Len(e.recs)}) = Len(e.recs)
            /\ {e.recs[i] : i \in 1..Len(e.recs)} =
                 {<<x, s.kv[x][1], s.kv[x][2], s.kv[x][3]>> : x \in DOMAIN s.kv}
         THEN {} ELSE {"content"}
    [] e.op = "count" -> IF e.n = Cardinality(DOMAIN s.kv) THEN {} ELSE {"count"}
After(s, e) ==
  CASE e.op = "run" /\ e.r = "ok" /\ e.mode # "search" -> [kv |-> Stored(s, e)]
    [] OTHER -> s
=============================================================================
