------------------------------ MODULE TrTools ------------------------------
(* Validation of recorded uses of the tools against Tools.                  *)
EXTENDS Tools, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dead
TInit == l = 0 /\ st = Start /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN st' = Start /\ dead' = FALSE
     ELSE LET bad == ~dead /\ ~Good(st, e) IN
          /\ dead' = (dead \/ bad)
          /\ st' = IF dead \/ bad THEN st ELSE After(st, e)
          /\ bad => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(st))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
