------------------------------ MODULE TrQuant ------------------------------
(* Trace validation of the real quantizers against Quant.                   *)
EXTENDS Quant, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, c, dead
TInit == l = 0 /\ s = Init0 /\ c = [kind |-> ""] /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset"
     THEN c' = e /\ s' = Init0 /\ dead' = FALSE
     ELSE LET F == IF dead THEN {} ELSE Faults(c, s, e) IN
          /\ c' = c
          /\ dead' = (dead \/ F # {})
          /\ s' = IF dead' THEN s ELSE After(c, s, e)
          /\ F # {} => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(F))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
