---------------------------- MODULE TrIndexLin ----------------------------
(* Linearizability of concurrent histories of one real client against the   *)
(* abstract index.                                                          *)
EXTENDS Index, Json, IOUtils
IxStep(c, s, e) ==
  IF e.op = "cstats" THEN IF e.r = "ok" /\ s.open /\ e.n = Cardinality(DOMAIN s.kv) THEN {s} ELSE {}
  ELSE Step(c, s, e)
L == INSTANCE Linear WITH Step <- IxStep
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, X, pend, cfg
TInit == l = 0 /\ X = {} /\ pend = <<>> /\ cfg = [kind |-> ""]
Config(e) ==
  [kind |-> e.kind, metric |-> e.metric, norm |-> e.norm, nclus |-> e.nclus,
   nprobes |-> e.nprobes, ef |-> e.ef, deft |-> e.deft, ntab |-> e.ntab,
   persist |-> e.persist, client |-> e.client,
   dot |-> Table(e.vecs, DotP), d2 |-> Table(e.vecs, Dist2),
   d1 |-> Table(e.vecs, Dist1), hd |-> Table(e.vecs, DistH)]
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ cfg' = IF e.op = "reset" THEN Config(e) ELSE cfg
     /\ pend' = CASE e.op = "reset" -> <<>>
                  [] e.op = "call" -> [t \in DOMAIN pend \cup {e.t} |-> IF t = e.t THEN e.e ELSE pend[t]]
                  [] e.op = "ret" -> [t \in DOMAIN pend \ {e.t} |-> pend[t]]
                  [] OTHER -> pend
     /\ X' = CASE e.op = "reset" -> L!Begin(IxInit)
               [] e.op = "call" -> X
               [] e.op = "ret" -> L!Return(cfg, pend, X, e.t)
               [] e.op = "stuck" -> {}
               [] OTHER -> UNION {{[x EXCEPT !.st = s] : s \in IxStep(cfg, x.st, e)} : x \in X}
     /\ (X # {} /\ X' = {}) =>
           PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(pend) \o " in " \o ToString(X))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
