------------------------------ MODULE TrStats ------------------------------
(* Validation of recorded histories with their statistics against Stats.    *)
EXTENDS Stats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
TInit == l = 0 /\ st = Fresh("none")
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN st' = Fresh(e.kind)
     ELSE LET F == Faults(st, e) IN
          /\ st' = After(st, e)
          /\ F # {} => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(F) \o " " \o ToString(st))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
