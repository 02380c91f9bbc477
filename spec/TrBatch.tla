------------------------------ MODULE TrBatch ------------------------------
(* Trace validation of real batch runs against Batch.                       *)
EXTENDS Batch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead
TInit == l = 0 /\ s = [kv |-> Empty] /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN s' = [kv |-> Empty] /\ dead' = FALSE
     ELSE LET F == IF dead THEN {} ELSE Faults(s, e) IN
          /\ dead' = (dead \/ F # {})
          /\ s' = IF dead' THEN s ELSE After(s, e)
          /\ F # {} => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(F))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
