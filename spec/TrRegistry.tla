----------------------------- MODULE TrRegistry -----------------------------
(* Validation of recorded registry histories against Registry.              *)
EXTENDS Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dead
TInit == l = 0 /\ st = <<>> /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN st' = Start(e.conf) /\ dead' = FALSE
     ELSE LET bad == ~dead /\ ~Good(st, e) IN
          /\ dead' = (dead \/ bad)
          /\ st' = IF dead THEN st ELSE After(st, e)
          /\ bad => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString([ini |-> st.ini, cur |-> st.cur]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
