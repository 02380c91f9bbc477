------------------------------ MODULE TrChunk ------------------------------
(* Validation of recorded calls of the real splitters against Chunk.        *)
EXTENDS Chunk, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 0
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1]  F == IF e.op = "reset" THEN {} ELSE Faults(e) IN
     F # {} => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(F))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
