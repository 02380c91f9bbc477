---------------------------- MODULE TrValidate ----------------------------
(* Validation of recorded validations against Validate.       *)
EXTENDS Validate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 0
TNext == /\ l < Len(Trace) /\ l' = l + 1
         /\ ~Good(Trace[l + 1]) => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(Trace[l + 1].op))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
