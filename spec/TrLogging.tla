------------------------------ MODULE TrLogging ------------------------------
(* Validation of recorded logging histories against Logging.               *)
EXTENDS Logging, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dead
TInit == l = 0 /\ st = <<>> /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN st' = Init0 /\ dead' = FALSE
     ELSE LET bad == ~dead /\ ~Good(st, e) IN
          /\ dead' = (dead \/ bad)
          /\ st' = IF dead THEN st ELSE After(st, e)
          /\ bad => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(st))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
