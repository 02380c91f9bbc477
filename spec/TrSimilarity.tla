---------------------------- MODULE TrSimilarity ----------------------------
(* Validation of recorded similarity computations against Similarity.       *)
EXTENDS Similarity, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 0
TNext == /\ l < Len(Trace) /\ l' = l + 1
         /\ ~GoodCall(Trace[l + 1]) => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(Trace[l + 1].op))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
