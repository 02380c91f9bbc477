------------------------------ MODULE TrIndex ------------------------------
(* Trace validation of real indices (and the client) against Index.         *)
EXTENDS Index, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, cfg
TInit == l = 0 /\ S = {} /\ cfg = [kind |-> ""]
Config(e) ==
  [kind |-> e.kind, metric |-> e.metric, norm |-> e.norm, nclus |-> e.nclus,
   nprobes |-> e.nprobes, ef |-> e.ef, deft |-> e.deft, ntab |-> e.ntab,
   persist |-> e.persist, client |-> e.client,
   dot |-> Table(e.vecs, DotP), d2 |-> Table(e.vecs, Dist2),
   d1 |-> Table(e.vecs, Dist1), hd |-> Table(e.vecs, DistH)]
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset"
     THEN /\ Assert(e.metric \in {"cosine", "angular"} =>
                      \A i \in 1..Len(e.vecs) : e.norm[i] * e.norm[i] = DotP(e.vecs[i], e.vecs[i]),
                    "the pool has a vector without an integer norm")
          /\ cfg' = Config(e) /\ S' = IxInit
     ELSE /\ cfg' = cfg
          /\ S' = UNION {Step(cfg, s, e) : s \in S}
          /\ (S # {} /\ S' = {}) =>
                PrintT("@@BAD " \o ToString(l + 1) \o " " \o
                       ToString(UNION {Why(cfg, s, e) : s \in S}) \o " in " \o ToString(S))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
