----------------------------- MODULE TrStorage -----------------------------
(* Trace validation of real storage backends against Storage.  The state of *)
(* the trace spec is the set of abstract states compatible with everything  *)
(* observed so far; an event no state allows is reported as "@@BAD".        *)
EXTENDS Storage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, cfg
TInit == l = 0 /\ S = {} /\ cfg = [kind |-> "", lim |-> 0]
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset"
     THEN cfg' = [kind |-> e.kind, lim |-> e.lim] /\ S' = StInit(e.kind)
     ELSE /\ cfg' = cfg
          /\ S' = UNION {Step(cfg.kind, cfg.lim, s, e) : s \in S}
          /\ (S # {} /\ S' = {}) =>
                PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(S))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
