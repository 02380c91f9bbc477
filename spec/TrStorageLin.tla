--------------------------- MODULE TrStorageLin ---------------------------
(* Linearizability of concurrent histories of real storage backends against *)
(* Storage.  Events: reset, call (thread t, operation e with its result),   *)
(* ret, stuck (a call that never returned), and quiescent observations.     *)
EXTENDS Storage, Json, IOUtils
StoreStep(c, s, e) ==
  IF e.op = "cstats"      \* statistics read while others work
  THEN IF /\ e.r = "ok" /\ s.open /\ e.n = Cardinality(DOMAIN s.kv)
          /\ c.kind = "hybrid" => e.mem <= c.lim
       THEN {s} ELSE {}
  ELSE Step(c.kind, c.lim, s, e)
L == INSTANCE Linear WITH Step <- StoreStep
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, X, pend, cfg
TInit == l = 0 /\ X = {} /\ pend = <<>> /\ cfg = [kind |-> "", lim |-> 0]
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ cfg' = IF e.op = "reset" THEN [kind |-> e.kind, lim |-> e.lim] ELSE cfg
     /\ pend' = CASE e.op = "reset" -> <<>>
                  [] e.op = "call" -> [t \in DOMAIN pend \cup {e.t} |-> IF t = e.t THEN e.e ELSE pend[t]]
                  [] e.op = "ret" -> [t \in DOMAIN pend \ {e.t} |-> pend[t]]
                  [] OTHER -> pend
     /\ X' = CASE e.op = "reset" -> L!Begin(StInit(e.kind))
               [] e.op = "call" -> X
               [] e.op = "ret" -> L!Return(cfg, pend, X, e.t)
               [] e.op = "stuck" -> {}
               [] OTHER -> UNION {{[x EXCEPT !.st = s] : s \in StoreStep(cfg, x.st, e)} : x \in X}
     /\ (X # {} /\ X' = {}) =>
           PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(pend) \o " in " \o ToString(X))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
