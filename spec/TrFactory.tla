----------------------------- MODULE TrFactory -----------------------------
(* Trace validation of the real factory functions against Factory.          *)
EXTENDS Factory, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tabs, dead
TInit == l = 0 /\ tabs = <<>> /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN tabs' = e.tabs /\ dead' = FALSE
     ELSE LET F == IF dead THEN {} ELSE Faults(tabs, e) IN
          /\ dead' = (dead \/ F # {})
          /\ tabs' = tabs
          /\ F # {} => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(F))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
