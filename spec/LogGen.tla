------------------------------- MODULE LogGen -------------------------------
(* How the messages reach the console: a logger of get_logger has a handler *)
(* and a level of its own and passes everything on to the root logger,      *)
(* which has a handler once logging is set up.  Release: setting up removes *)
(* the handlers and levels of the loggers there are; Guard: afterwards      *)
(* get_logger adds none.  Without either, Once is violated.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Names, Levels, Release, Guard
VARIABLES own, got, conf
vars == <<own, got, conf>>
(* own[n]: level of the logger and its handler; got: what it was first      *)
(* asked for with; conf: level of the root logger and handler; 0: none      *)
Init == own = [n \in Names |-> 0] /\ got = [n \in Names |-> 0] /\ conf = 0
Snap == [o |-> own, g |-> got, c |-> conf]
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<Snap, op, [o |-> own', g |-> got', c |-> conf']>>))
Get(n, l) ==
  /\ got' = [got EXCEPT ![n] = IF @ = 0 THEN l ELSE @]
  /\ own' = [own EXCEPT ![n] = IF @ = 0 /\ ~(Guard /\ conf > 0) THEN l ELSE @]
  /\ UNCHANGED conf /\ Emit([op |-> "get", n |-> n, l |-> l])
Setup(l) == /\ conf' = l /\ own' = (IF Release THEN [n \in Names |-> 0] ELSE own)
            /\ UNCHANGED got /\ Emit([op |-> "setup", l |-> l])
Say(n, s) == UNCHANGED vars /\ Emit([op |-> "emit", n |-> n, s |-> s])
Next == \/ \E n \in Names, l \in Levels : Get(n, l) \/ (got[n] > 0 /\ Say(n, l))
        \/ \E l \in Levels : Setup(l)
(* how often a message of severity s appears on the console *)
Shown(n, s) ==
  LET level == IF own[n] > 0 THEN own[n] ELSE conf IN
  IF level = 0 \/ s < level THEN 0
  ELSE (IF own[n] > 0 /\ s >= own[n] THEN 1 ELSE 0) + (IF conf > 0 /\ s >= conf THEN 1 ELSE 0)
Once == \A n \in Names, s \in Levels :
  got[n] > 0 => Shown(n, s) = IF s >= (IF conf > 0 THEN conf ELSE got[n]) THEN 1 ELSE 0
=============================================================================
