----------------------------- MODULE TrPersist -----------------------------
(* Trace validation of real persistence managers against Persist.           *)
EXTENDS Persist, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, cfg
TInit == l = 0 /\ S = {} /\ cfg = [kind |-> ""]
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset"
     THEN cfg' = [kind |-> e.kind] /\ S' = PInit
     ELSE /\ cfg' = cfg
          /\ S' = UNION {Step(cfg, s, e) : s \in S}
          /\ (S # {} /\ S' = {}) =>
                PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(S))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
