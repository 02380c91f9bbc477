------------------------------ MODULE Storage ------------------------------
(* Abstract storage backend: an exact key-value map.                        *)
(*                                                                          *)
(* A record is a pair <<vector, metadata>> of value tokens (naturals; the   *)
(* harness maps concrete arrays and metadata objects to tokens; metadata    *)
(* token 0 is "None").  A state is                                          *)
(*   [open |-> has initialize been called (and close not),                  *)
(*    kv   |-> id -> record]                                                *)
(* Step(kind, lim, s, e) is the set of states after the observed event e    *)
(* from state s - empty if the observation is not allowed.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> <<0, 0>>]
Put(kv, id, rec) == [x \in DOMAIN kv \cup {id} |-> IF x = id THEN rec ELSE kv[x]]
Del(kv, id) == [x \in DOMAIN kv \ {id} |-> kv[x]]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b

Persistent(kind) == kind \in {"disk", "hybrid"}
Closed(kind, s) == [open |-> FALSE, kv |-> IF Persistent(kind) THEN s.kv ELSE Empty]
StInit(kind) == {[open |-> FALSE, kv |-> Empty]}

(* What a crash or a failure in the middle of an operation may leave.       *)
Torn(s, e) ==
  LET old == e.id \in DOMAIN s.kv IN
  CASE e.op = "store" /\ e.id = "" -> {s.kv}
    [] e.op = "store" /\ old ->
         {Put(s.kv, e.id, <<v, m>>) : v \in {s.kv[e.id][1], e.v}, m \in {s.kv[e.id][2], e.m}}
    [] e.op = "store" /\ ~old -> {s.kv, Put(s.kv, e.id, <<e.v, e.m>>)}
    [] e.op = "update" /\ old ->
         {Put(s.kv, e.id, <<v, m>>) : v \in {s.kv[e.id][1], e.v}, m \in {s.kv[e.id][2], e.m}}
    [] e.op = "update" /\ ~old -> {s.kv}
    [] e.op = "delete" /\ old -> {s.kv, Del(s.kv, e.id)}
    [] OTHER -> {s.kv}

(* The complete effect: <<result, kv'>> *)
Effect(s, e) ==
  LET old == e.id \in DOMAIN s.kv IN
  CASE e.op = "store" -> IF e.id = "" THEN <<"false", s.kv>>
                         ELSE <<"true", Put(s.kv, e.id, <<e.v, e.m>>)>>
    [] e.op = "update" -> IF old THEN <<"true", Put(s.kv, e.id, <<e.v, e.m>>)>>
                          ELSE <<"false", s.kv>>
    [] e.op = "delete" -> IF old THEN <<"true", Del(s.kv, e.id)>> ELSE <<"false", s.kv>>

Mutators == {"store", "update", "delete"}
DataOps == Mutators \cup {"get", "list", "stats"}

Step(kind, lim, s, e) ==
  CASE e.op = "init" ->
         IF e.r # "ok" THEN {}
         ELSE {[open |-> TRUE, kv |-> IF Persistent(kind) THEN s.kv ELSE Empty]}
    [] e.op = "close" -> IF e.r = "ok" THEN {Closed(kind, s)} ELSE {}
    [] e.op = "new" -> {Closed(kind, s)}       \* process ended, new instance
    [] e.op = "crash" ->                       \* died in the middle of e.in
         {[open |-> FALSE, kv |-> k] : k \in Torn(s, e.in) \cup {Effect(s, e.in)[2]}}
    [] e.op \in DataOps /\ ~s.open ->
         \* refused; a store under the empty id may also just say "not stored"
         IF \/ e.op = "stats" /\ e.r = "closed"
            \/ e.op # "stats" /\ e.r = "err"
            \/ e.op = "store" /\ e.id = "" /\ e.r = "false"
         THEN {s} ELSE {}
    [] e.op \in Mutators /\ e.fault /\ e.r = "err" ->
         {[s EXCEPT !.kv = k] : k \in Torn(s, e) \cup {Effect(s, e)[2]}}
    [] e.op \in Mutators /\ ~(e.fault /\ e.r = "err") ->
         IF e.r = Effect(s, e)[1] THEN {[s EXCEPT !.kv = Effect(s, e)[2]]} ELSE {}
    [] e.op = "toolong" ->    \* the file system refuses such a name: any outcome
         IF e.r = "err" THEN {s}         \* but the two consistent ones
         ELSE IF e.r = "true" THEN {[s EXCEPT !.kv = Put(s.kv, e.id, <<e.v, e.m>>)]} ELSE {}
    [] e.op = "get" ->
         IF e.id \in DOMAIN s.kv
         THEN IF e.r = "rec" /\ e.v = s.kv[e.id][1] /\ e.m = s.kv[e.id][2] THEN {s} ELSE {}
         ELSE IF e.r = "none" THEN {s} ELSE {}
    [] e.op = "list" ->      \* lim = -1: no limit
         IF /\ e.r = "ids"
            /\ SeqSet(e.ids) \subseteq DOMAIN s.kv
            /\ Cardinality(SeqSet(e.ids)) = Len(e.ids)
            /\ Len(e.ids) = IF e.lim = -1 THEN Cardinality(DOMAIN s.kv)
                            ELSE Min2(e.lim, Cardinality(DOMAIN s.kv))
         THEN {s} ELSE {}
    [] e.op = "stats" ->
         IF /\ e.r = "ok"
            /\ e.n = Cardinality(DOMAIN s.kv)
            /\ kind = "hybrid" => e.mem <= lim /\ e.mem <= Cardinality(DOMAIN s.kv)
         THEN {s} ELSE {}
    [] e.op = "layer" ->     \* the disk layer of a hybrid store, read on its own
         IF e.id \in DOMAIN s.kv
         THEN IF e.r = "rec" /\ e.v = s.kv[e.id][1] /\ e.m = s.kv[e.id][2] THEN {s} ELSE {}
         ELSE IF e.r = "none" THEN {s} ELSE {}
    [] e.op = "outside" ->   \* files found outside the data directory (and changed ones)
         IF e.n = 0 THEN {s} ELSE {}
    [] e.op = "same" ->      \* was an argument left unmodified by the call?
         IF e.r = "true" THEN {s} ELSE {}
=============================================================================
