------------------------------ MODULE Persist ------------------------------
(* Abstract persistence managers.                                           *)
(*   cfg.kind "tensor": a map from names to saved values                    *)
(*   cfg.kind "inc":    the same for vectors and index data, and one latest *)
(*                      state (the name given to save_state is a label)     *)
(* s: open; files: name -> <<what, value>>; st: the state saved last        *)
(* (0 = none); cnt: a lower bound of the operation counter; acked: number   *)
(* of acknowledged saves.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Nothing == [x \in {} |-> <<"", 0>>]
PutN(f, n, r) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN r ELSE f[x]]

PInit == {[open |-> FALSE, files |-> Nothing, st |-> 0, cnt |-> 0, acked |-> 0]}
Global(c, what) == c.kind = "inc" /\ what = "state"
Saved(c, s, e) == IF Global(c, e.what) THEN [s EXCEPT !.st = e.v]
                  ELSE [s EXCEPT !.files = PutN(@, e.name, <<e.what, e.v>>)]
Acked(t) == [t EXCEPT !.cnt = @ + 1, !.acked = @ + 1]

Step(c, s, e) ==
  CASE e.op = "init" -> IF e.r = "ok" THEN {[s EXCEPT !.open = TRUE]} ELSE {}
    [] e.op = "close" -> IF e.r = "ok" THEN {[s EXCEPT !.open = FALSE]} ELSE {}
    [] e.op = "new" -> {[s EXCEPT !.open = FALSE]}
    [] e.op \in {"save", "load", "badsave"} /\ ~s.open -> IF e.r = "err" THEN {s} ELSE {}
    [] e.op = "badsave" -> IF e.r = "err" THEN {s} ELSE {}   \* cannot be read back
    [] e.op = "save" ->
         IF e.r = "true" THEN {Acked(Saved(c, s, e))}
         ELSE IF e.r = "err" /\ e.fault THEN {s, Saved(c, s, e)} ELSE {}
    [] e.op = "load" /\ Global(c, e.what) ->
         IF (IF s.st = 0 THEN e.r = "none" ELSE e.r = "val" /\ e.v = s.st)
            \/ (e.fault /\ e.r = "err") THEN {s} ELSE {}
    [] e.op = "load" ->
         IF e.name \notin DOMAIN s.files THEN IF e.r = "none" THEN {s} ELSE {}
         ELSE IF s.files[e.name][1] # e.what THEN {s}      \* another sort of file
         ELSE IF (e.r = "val" /\ e.v = s.files[e.name][2]) \/ (e.fault /\ e.r = "err")
              THEN {s} ELSE {}
    [] e.op = "crash" ->     \* the process died somewhere inside the save e.in
         {[t EXCEPT !.open = FALSE] : t \in {s, Saved(c, s, e.in)}}
    [] e.op = "stats" ->
         IF ~s.open THEN IF e.r = "closed" THEN {s} ELSE {}
         ELSE IF e.r # "ok" THEN {}
         ELSE IF c.kind = "tensor" THEN {s}
         ELSE IF /\ e.cnt >= s.cnt /\ e.logged >= s.acked /\ e.lastcp <= e.cnt
              THEN {[s EXCEPT !.cnt = e.cnt]} ELSE {}
    [] e.op = "oplog" ->      \* operation numbers in the log, oldest first
         IF /\ e.r = "ok" /\ Len(e.ids) >= s.acked
            /\ \A i \in 1..Len(e.ids) - 1 : e.ids[i] < e.ids[i + 1]
         THEN {s} ELSE {}
    [] e.op = "outside" -> IF e.n = 0 THEN {s} ELSE {}
=============================================================================
