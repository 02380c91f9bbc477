----------------------------- MODULE IndexGen -----------------------------
(* Bounded exploration of the abstract index: every transition of the model *)
(* is printed (EMIT=1) and replayed on the real indices.  Also checks that  *)
(* the search clauses are satisfiable in every reachable state, and that a  *)
(* wrong result is never accepted (the oracle is not vacuous).              *)
EXTENDS Index, Json, IOUtils
CONSTANTS Kind, Metric, Slots, NClus, Files
Vecs == <<<<3, 4>>, <<4, 3>>, <<5, 0>>, <<-3, -4>>>>
Toks == 1..2          \* vectors that get stored
C == [kind |-> Kind, metric |-> Metric, norm |-> <<5, 5, 5, 5>>, nclus |-> NClus,
      nprobes |-> NClus, ef |-> 10, deft |-> TRUE, ntab |-> 2, persist |-> FALSE,
      client |-> FALSE, dot |-> Table(Vecs, DotP), d2 |-> Table(Vecs, Dist2),
      d1 |-> Table(Vecs, Dist1), hd |-> Table(Vecs, DistH)]
VARIABLE s
Init == s \in IxInit
Free(st) == Slots \ DOMAIN st.kv
(* the canonical fresh ids: smallest free slots *)
RECURSIVE FreeSeq(_, _)
FreeSeq(F, n) == IF n = 0 \/ F = {} THEN <<>>
                 ELSE LET x == CHOOSE x \in F : \A y \in F : x <= y
                      IN <<x>> \o FreeSeq(F \ {x}, n - 1)
Bool(b) == IF b THEN "true" ELSE "false"
Ev(op) == [op |-> op, r |-> "ok", fault |-> FALSE]
Inserts(st) ==
  {[op |-> "insert", r |-> "ok", fault |-> FALSE, vs |-> vs, ms |-> <<>>, given |-> FALSE,
    ids |-> FreeSeq(Free(st), Len(vs))] :
     vs \in {q \in {<<>>} \cup {<<v>> : v \in Toks} \cup {<<v, w>> : v \in Toks, w \in Toks} :
               Len(q) <= Cardinality(Free(st))}}
Updates(st) ==
  {[op |-> "update", r |-> Bool(i \in DOMAIN st.kv), fault |-> FALSE, id |-> i, v |-> v, m |-> m] :
     i \in Slots, v \in Toks, m \in {0, 2}}
Deletes(st) ==
  {[op |-> "delete", r |-> Bool(SeqSet(q) \subseteq DOMAIN st.kv), fault |-> FALSE, ids |-> q] :
     q \in {<<>>} \cup {<<i>> : i \in Slots} \cup {<<i, j>> : i \in Slots, j \in Slots}}
Others ==
  {Ev("build"), Ev("close"), Ev("init")}
  \cup (IF Kind \in {"annoy", "lsh"} THEN {Ev("clear")} ELSE {})
  \cup (IF Kind = "annoy"
        THEN {[op |-> o, r |-> "ok", fault |-> FALSE, file |-> f] : o \in {"save", "load"}, f \in Files}
        ELSE {})
Events(st) == Inserts(st) \cup Updates(st) \cup Deletes(st) \cup Others

Emit(e) == IF IOEnv.EMIT = "1"
           THEN PrintT("@@E " \o ToJson(<<s, e, s'>>)) ELSE TRUE
Next == \E e \in Events(s) :
          /\ e.op = "build" => Kind = "annoy"
          /\ s' \in {IF Kind = "ivf" THEN t ELSE [t EXCEPT !.maxn = 0] : t \in Step(C, s, e)}
          /\ Emit(e)

(* ---- sanity of the search oracle ---- *)
ScoreFor(q, a) == CHOOSE sc \in 0..1000 : ScoreOK(C, q, a, sc)
Perms(D) == {q \in [1..Cardinality(D) -> D] : \A i, j \in 1..Cardinality(D) : i # j => q[i] # q[j]}
Res(q, ids, k) == [i \in 1..Min2(k, Len(ids)) |->
    [id |-> ids[i], m |-> s.kv[ids[i]][2],
     sc |-> CASE Family(Kind) /\ Metric = "cosine" ->
                   (100000 * (25 - C.dot[q][s.kv[ids[i]][1]])) \div 25
              [] Kind = "lsh" /\ Metric = "cosine" ->
                   4000 * C.dot[q][s.kv[ids[i]][1]]
              [] OTHER -> ScoreFor(q, s.kv[ids[i]][1])]]
SearchEv(q, k, res) == [op |-> "search", q |-> q, k |-> k, r |-> "res", res |-> res, thr |-> -100000]
Satisfiable == s.open =>
  \A q \in 1..4 : \A k \in 0..3 :
     \E ids \in Perms(DOMAIN s.kv) : SearchOK(C, s, SearchEv(q, k, Res(q, ids, k)))
Strict == s.open =>
  \A q \in 1..4 : \A k \in 1..3 : \A ids \in Perms(DOMAIN s.kv) :
     LET r == Res(q, ids, k)
         sorted == \A i, j \in 1..Len(ids) : i < j =>
                      ~Closer(C, q, s.kv[ids[j]][1], s.kv[ids[i]][1])
     IN SearchOK(C, s, SearchEv(q, k, r)) => (k >= Len(ids) => sorted)
=============================================================================
