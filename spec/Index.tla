------------------------------- MODULE Index -------------------------------
(* Abstract vector index: a set of identified vectors with metadata, and    *)
(* searches that must return true neighbours.                               *)
(*                                                                          *)
(* cfg (from the reset event of a trace):                                   *)
(*   kind    "flat" | "hnsw" | "ivf" | "lsh" | "annoy"                      *)
(*   metric  "cosine" | "euclidean" | "manhattan" | "dot" | "hamming" |     *)
(*           "angular"                                                      *)
(*   dot, d2, d1, hd   pairwise products/distances of the vector pool       *)
(*   norm    integer norms (angular metrics only use vectors that have one) *)
(*   nclus, nprobes (ivf), ef (hnsw), deft (annoy: default search_k),       *)
(*   thr (lsh, in 1/100000), ntab (lsh), persist (the storage is on disk),  *)
(*   client (driven through the client)                                     *)
(* Vectors are tokens (positions in the pool), metadata tokens: 0 = None,   *)
(* 1 = {}.                                                                  *)
(* State s: open, kv: id -> <<vector, metadata>>, built (annoy),            *)
(*   maxn: largest size since the last (re)initialization (ivf training),   *)
(*   saved: files written by save.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumF(_, _)
SumF(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumF(f, n - 1)
DotP(a, b) == LET f(i) == a[i] * b[i] IN SumF(f, Len(a))
Dist2(a, b) == LET f(i) == (a[i] - b[i]) * (a[i] - b[i]) IN SumF(f, Len(a))
Dist1(a, b) == LET f(i) == Abs(a[i] - b[i]) IN SumF(f, Len(a))
DistH(a, b) == LET f(i) == IF a[i] = b[i] THEN 0 ELSE 1 IN SumF(f, Len(a))
Table(vs, F(_, _)) == [i \in 1..Len(vs) |-> [j \in 1..Len(vs) |-> F(vs[i], vs[j])]]

Empty == [x \in {} |-> <<0, 0>>]
Put(kv, id, rec) == [x \in DOMAIN kv \cup {id} |-> IF x = id THEN rec ELSE kv[x]]
Del(kv, ids) == [x \in DOMAIN kv \ ids |-> kv[x]]
Family(kind) == kind \in {"flat", "hnsw", "ivf"}      \* work on a storage backend

(* ------------------------------------------------------------- geometry *)
Angular(c) == c.metric \in {"cosine", "angular"}
CosDot(c, q, a) == IF c.norm[q] = 0 \/ c.norm[a] = 0 THEN 0 ELSE c.dot[q][a]
N1(c, a) == IF c.norm[a] = 0 THEN 1 ELSE c.norm[a]
(* a is strictly closer to q than b *)
Closer(c, q, a, b) ==
  CASE Angular(c) -> CosDot(c, q, a) * N1(c, b) > CosDot(c, q, b) * N1(c, a)
    [] c.metric = "euclidean" -> c.d2[q][a] < c.d2[q][b]
    [] c.metric = "manhattan" -> c.d1[q][a] < c.d1[q][b]
    [] c.metric = "hamming" -> c.hd[q][a] < c.hd[q][b]
    [] c.metric = "dot" -> c.dot[q][a] > c.dot[q][b]

(* Is the reported score the score of q and a?  Scaled integers, see the    *)
(* harness (score_scale): cosine 100000, euclidean 1000, annoy angular 500, *)
(* 1/(1+d) 1000, hamming/dot 1000.                                          *)
ScoreOK(c, q, a, sc) ==
  LET n == N1(c, q) * N1(c, a)
      dt == CosDot(c, q, a)
  IN
  CASE Family(c.kind) /\ c.metric = "cosine" -> Abs(sc * n - 100000 * (n - dt)) <= 3 * n
    [] Family(c.kind) /\ c.metric = "euclidean" ->
         sc >= -2 /\ Abs(sc * sc - c.d2[q][a] * 1000000) <= 4 * Abs(sc) + 8
    [] c.kind = "lsh" /\ c.metric = "cosine" -> Abs(sc * n - 100000 * dt) <= 3 * n
    [] c.kind = "annoy" /\ c.metric = "angular" ->
         LET g == 500 - sc IN
         g >= -2 /\ Abs(2 * g * g * n - 250000 * (n - dt)) <= 8 * (Abs(g) + 2) * n
    [] c.kind \in {"lsh", "annoy"} /\ c.metric = "euclidean" ->
         sc >= 0 /\ sc <= 1000 /\ Abs((1000 - sc) * (1000 - sc) - c.d2[q][a] * sc * sc)
             <= 2 * (1000 - sc) + 2 * c.d2[q][a] * sc + c.d2[q][a] + 2
    [] c.kind \in {"lsh", "annoy"} /\ c.metric = "manhattan" ->
         Abs(sc * (1 + c.d1[q][a]) - 1000) <= 1 + c.d1[q][a]
    [] c.metric = "hamming" -> sc = 1000 * (1 - c.hd[q][a])
    [] c.metric = "dot" -> sc = IF c.dot[q][a] <= 0 THEN 0 ELSE 1000

(* LSH similarity of q and a is at least t (a multiple of 1/1000 apart)     *)
SimAtLeast(c, q, a, t) ==      \* t in 1/100000
  CASE c.metric = "cosine" -> CosDot(c, q, a) * 100000 >= t * N1(c, q) * N1(c, a)
    [] c.metric = "euclidean" -> c.d2[q][a] = 0 /\ t <= 100000   \* only used for q = a
    [] c.metric = "manhattan" -> c.d1[q][a] = 0 /\ t <= 100000

(* --------------------------------------------------------------- search *)
Exact(c, s) ==
  CASE c.kind = "flat" -> TRUE
    [] c.kind = "hnsw" -> c.ef >= Cardinality(DOMAIN s.kv)
    [] c.kind = "ivf" -> c.nprobes >= c.nclus \/ s.maxn < c.nclus
    [] c.kind = "annoy" -> c.deft
    [] c.kind = "lsh" -> FALSE

ResIds(e) == {e.res[i].id : i \in 1..Len(e.res)}
SearchFaults(c, s, e) ==
  LET n == Cardinality(DOMAIN s.kv)
      live == {i \in 1..Len(e.res) : e.res[i].id \in DOMAIN s.kv}
      vec(i) == s.kv[e.res[i].id][1]
  IN
  (IF e.r # "res" THEN {"error"} ELSE {}) \cup
  (IF Len(e.res) > e.k THEN {"more than k"} ELSE {}) \cup
  (IF Cardinality(ResIds(e)) # Len(e.res) THEN {"duplicates"} ELSE {}) \cup
  (IF live # 1..Len(e.res) THEN {"not live"} ELSE {}) \cup
  (IF \E i \in live : e.res[i].m # s.kv[e.res[i].id][2] THEN {"metadata"} ELSE {}) \cup
  (IF \E i \in live : ~ScoreOK(c, e.q, vec(i), e.res[i].sc) THEN {"score"} ELSE {}) \cup
  (IF \E i, j \in live : i < j /\ Closer(c, e.q, vec(j), vec(i)) THEN {"order"} ELSE {}) \cup
  (IF \/ Exact(c, s) /\ Len(e.res) # Min2(e.k, n)
      \/ c.kind = "hnsw" /\ Len(e.res) # Min2(e.k, n) THEN {"count"} ELSE {}) \cup
  (IF /\ Exact(c, s)
      /\ \E x \in DOMAIN s.kv \ ResIds(e) : \E i \in live :
            Closer(c, e.q, s.kv[x][1], vec(i)) THEN {"not nearest"} ELSE {}) \cup
  (IF /\ c.kind = "ivf" /\ e.k >= 1 /\ e.r = "res"
      /\ \E x \in DOMAIN s.kv : s.kv[x][1] = e.q /\ (Angular(c) => c.norm[e.q] # 0)
      /\ ~(Len(e.res) >= 1 /\ (1 \in live => ~Closer(c, e.q, e.q, vec(1))))
   THEN {"self"} ELSE {}) \cup
  (IF /\ c.kind = "lsh" /\ e.k >= n /\ e.r = "res"
      /\ \E x \in DOMAIN s.kv \ ResIds(e) :
            s.kv[x][1] = e.q /\ SimAtLeast(c, e.q, e.q, e.thr + 10)
   THEN {"self"} ELSE {}) \cup
  (IF c.kind = "lsh" /\ \E i \in 1..Len(e.res) :
         (IF c.metric = "cosine" THEN e.res[i].sc ELSE e.res[i].sc * 100) < e.thr - 51
   THEN {"threshold"} ELSE {})

SearchOK(c, s, e) == SearchFaults(c, s, e) = {}

(* --------------------------------------------------------- modification *)
DefMeta(c) == IF Family(c.kind) THEN 0 ELSE 1
MetaAt(c, e, i) ==
  IF e.given /\ i <= Len(e.ms) /\ e.ms[i] # 0 THEN e.ms[i] ELSE DefMeta(c)
InsertKV(c, s, e) ==
  [x \in DOMAIN s.kv \cup SeqSet(e.ids) |->
     IF x \in SeqSet(e.ids)
     THEN LET i == CHOOSE i \in 1..Len(e.ids) : e.ids[i] = x IN <<e.vs[i], MetaAt(c, e, i)>>
     ELSE s.kv[x]]
Grow(s, kv) == [s EXCEPT !.kv = kv, !.maxn = Max2(@, Cardinality(DOMAIN kv))]

UpdMeta(c, s, e) == IF e.m = 0 /\ ~Family(c.kind) THEN s.kv[e.id][2] ELSE e.m

IxInit == {[open |-> FALSE, kv |-> Empty, built |-> FALSE, maxn |-> 0,
            saved |-> [x \in {} |-> Empty]]}
(* content after the component was closed and initialized again *)
Survives(c) == Family(c.kind) /\ (c.persist \/ ~c.client)

Step(c, s, e) ==
  CASE e.op = "init" ->
         IF e.r # "ok" THEN IF e.fault /\ e.r = "err" THEN {[s EXCEPT !.open = FALSE]} ELSE {}
         ELSE LET kv == IF c.client /\ ~c.persist /\ Family(c.kind) THEN Empty ELSE s.kv
              IN {[s EXCEPT !.open = TRUE, !.kv = kv, !.maxn = Cardinality(DOMAIN kv)]}
    [] e.op = "close" ->
         IF e.r # "ok" THEN {}
         ELSE {[s EXCEPT !.open = FALSE, !.built = FALSE, !.maxn = 0,
                         !.kv = IF Survives(c) THEN @ ELSE Empty]}
    [] e.op = "left" -> IF e.n = 0 THEN {s} ELSE {}      \* temporary files after close
    [] e.op = "newindex" ->      \* another index object (on the same storage)
         {[s EXCEPT !.open = FALSE, !.built = FALSE, !.maxn = 0,
                    !.kv = IF Survives(c) THEN @ ELSE Empty]}
    [] e.op \in {"insert", "search", "update", "delete", "bad", "build", "save"} /\ ~s.open ->
         IF e.r = "err" THEN {s} ELSE {}
    [] e.op = "insert" /\ s.open ->
         IF e.r = "err"
         THEN IF \/ e.fault
                 \/ ~Family(c.kind) /\ e.given /\ Len(e.ms) # Len(e.vs) THEN {s} ELSE {}
         ELSE IF /\ e.r = "ok"
                 /\ Len(e.ids) = Len(e.vs)
                 /\ Cardinality(SeqSet(e.ids)) = Len(e.ids)
                 /\ SeqSet(e.ids) \cap DOMAIN s.kv = {}
                 /\ Family(c.kind) \/ ~e.given \/ Len(e.ms) = Len(e.vs)
              THEN {[Grow(s, InsertKV(c, s, e)) EXCEPT
                       !.built = IF Len(e.vs) > 0 THEN FALSE ELSE @]}
              ELSE {}
    [] e.op = "update" /\ s.open ->
         IF e.id \in DOMAIN s.kv
         THEN IF e.r = "true"
              THEN {[s EXCEPT !.kv = Put(s.kv, e.id, <<e.v, UpdMeta(c, s, e)>>),
                              !.built = FALSE]}
              ELSE IF e.fault /\ e.r = "err"
                   THEN {s, [s EXCEPT !.kv = Put(s.kv, e.id, <<e.v, UpdMeta(c, s, e)>>)]}
                   ELSE {}
         ELSE IF e.r \in {"false", "err"} THEN {s} ELSE {}
    [] e.op = "delete" /\ s.open ->
         LET gone == SeqSet(e.ids) \cap DOMAIN s.kv
             all == SeqSet(e.ids) \subseteq DOMAIN s.kv
             rep == Cardinality(SeqSet(e.ids)) # Len(e.ids)
         IN IF e.fault /\ e.r = "err"
            THEN {[s EXCEPT !.kv = Del(s.kv, SeqSet(SubSeq(e.ids, 1, j)))] : j \in 0..Len(e.ids)}
            ELSE IF e.r = (IF all THEN "true" ELSE "false") \/ (all /\ rep /\ e.r = "false")
                    \/ e.r = "none"     \* remove() says nothing
                 THEN {[s EXCEPT !.kv = Del(s.kv, gone)]} ELSE {}
    [] e.op = "search" /\ s.open ->
         IF e.fault /\ e.r = "err" THEN {s}
         ELSE IF c.kind = "annoy" /\ ~s.built
         THEN IF e.r = "err" \/ (DOMAIN s.kv = {} /\ e.r = "res" /\ e.res = <<>>) THEN {s} ELSE {}
         ELSE IF SearchOK(c, s, e) THEN {s} ELSE {}
    [] e.op = "bad" /\ s.open ->       \* input that must be rejected without effect
         IF \/ e.r = "err"
            \/ e.what = "update" /\ e.r = "false"
            \/ e.what = "search" /\ DOMAIN s.kv = {} /\ e.r = "empty"
         THEN {s} ELSE {}
    [] e.op = "build" /\ s.open ->
         IF e.r = "ok" THEN {[s EXCEPT !.built = TRUE]} ELSE {}
    [] e.op = "clear" ->
         IF e.r = "ok" THEN {[s EXCEPT !.kv = Empty, !.built = FALSE]} ELSE {}
    [] e.op = "save" /\ s.open ->
         IF ~s.built THEN IF e.r = "err" THEN {s} ELSE {}
         ELSE IF e.r = "err" THEN IF DOMAIN s.kv = {} THEN {s} ELSE {}
         ELSE IF e.r = "ok"
              THEN {[s EXCEPT !.saved = [x \in DOMAIN @ \cup {e.file} |->
                                          IF x = e.file THEN s.kv ELSE @[x]]]}
              ELSE {}
    [] e.op = "load" ->
         IF e.file \in DOMAIN s.saved /\ s.open
         THEN IF e.r = "ok" THEN {[s EXCEPT !.kv = s.saved[e.file], !.built = TRUE]} ELSE {}
         ELSE IF e.r = "err" THEN {s} ELSE {}
    [] e.op = "stats" ->
         IF ~s.open THEN IF Family(c.kind) /\ ~(e.r = "closed" \/ (c.client /\ e.r = "err")) THEN {} ELSE {s}
         ELSE IF /\ e.r = "ok" /\ e.n = Cardinality(DOMAIN s.kv)
                 /\ c.kind = "ivf" => /\ e.clusters \in {-1, e.n}
                                      /\ e.clusters = -1 => s.maxn < c.nclus
                                      /\ (e.clusters # -1 /\ e.peek) =>
                                            /\ Len(e.members) = e.n
                                            /\ SeqSet(e.members) = DOMAIN s.kv
                 /\ c.kind = "lsh" => /\ e.entries = e.n * c.ntab
                                      /\ e.maxb <= e.n /\ (e.n > 0 => e.maxb >= 1)
                 /\ c.kind = "hnsw" => e.levels >= 1 /\ e.maxlevel = e.levels - 1
                 /\ c.kind = "annoy" => e.built = s.built
              THEN {s} ELSE {}
    [] e.op = "storage" ->        \* everything the storage backend holds
         IF /\ e.r = "ok"
            /\ Cardinality({e.recs[i].id : i \in 1..Len(e.recs)}) = Len(e.recs)
            /\ {e.recs[i].id : i \in 1..Len(e.recs)} = DOMAIN s.kv
            /\ \A i \in 1..Len(e.recs) :
                 <<e.recs[i].v, e.recs[i].m>> = s.kv[e.recs[i].id]
         THEN {s} ELSE {}
    [] e.op = "same" -> IF e.r = "true" THEN {s} ELSE {}

(* Why an event is rejected (for the report and for attributing searches)   *)
Why(c, s, e) ==
  IF e.op = "search" /\ s.open /\ ~(c.kind = "annoy" /\ ~s.built) /\ e.r = "res"
  THEN SearchFaults(c, s, e) ELSE {e.op}
=============================================================================
