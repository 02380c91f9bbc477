------------------------------ MODULE Helpers ------------------------------
(* Vector files, batch search, similarity and duplicate detection.          *)
(* State: files, name -> <<format, vectors, metadata>> (value tokens).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
Dot(a, b) == LET f(i) == a[i] * b[i] IN SumTo(f, Len(a))
Dist2(a, b) == LET f(i) == (a[i] - b[i]) * (a[i] - b[i]) IN SumTo(f, Len(a))

(* -------------------------------------------------------------- groups *)
(* G: sequence of groups (sequences of positions 1..n) under the relation R *)
Leader(G, j) == CHOOSE i \in 1..Len(G) : j \in SeqSet(G[i])
Grouped(G) == UNION {SeqSet(G[i]) : i \in 1..Len(G)}
GroupsOK(n, R(_, _), G) ==
  /\ Grouped(G) \subseteq 1..n
  /\ \A i \in 1..Len(G) : Len(G[i]) >= 2 /\ Cardinality(SeqSet(G[i])) = Len(G[i])
  /\ \A i, j \in 1..Len(G) : i # j => SeqSet(G[i]) \cap SeqSet(G[j]) = {}
  (* members reach the threshold with the first of their group *)
  /\ \A i \in 1..Len(G) : \A x \in 2..Len(G[i]) : G[i][1] < G[i][x] /\ R(G[i][1], G[i][x])
  (* nothing that reaches it with the first of a group or with an ungrouped vector is left *)
  /\ \A i \in 1..n :
        (i \notin Grouped(G) \/ G[Leader(G, i)][1] = i) =>
          \A j \in (i + 1)..n : R(i, j) => j \in Grouped(G) /\ G[Leader(G, j)][1] <= i
(* the algorithm *)
RECURSIVE Greedy(_, _, _, _)
Pick(n, R(_, _), i, done) == SelectSeq([k \in 1..(n - i) |-> i + k], LAMBDA j : j \notin done /\ R(i, j))
Greedy(n, R(_, _), i, done) ==
  IF i > n THEN <<>>
  ELSE IF i \in done THEN Greedy(n, R, i + 1, done)
  ELSE LET g == Pick(n, R, i, done) IN
       (IF g = <<>> THEN <<>> ELSE << <<i>> \o g >>) \o Greedy(n, R, i + 1, done \cup {i} \cup SeqSet(g))

(* e.vs integer vectors, e.norm their norms (0 for the zero vector); the    *)
(* threshold is e.t / 1000 (cosine, euclidean) or e.t (dot)                 *)
Reach(e, i, j) ==
  CASE e.metric = "cosine" ->
         LET n == e.norm[i] * e.norm[j]  d == IF n = 0 THEN 0 ELSE Dot(e.vs[i], e.vs[j])
         IN 1000 * d >= e.t * (IF n = 0 THEN 1 ELSE n)
    [] e.metric = "euclidean" ->
         e.t <= 0 \/ (e.t <= 1000 /\ Dist2(e.vs[i], e.vs[j]) * e.t * e.t <= (1000 - e.t) * (1000 - e.t))
    [] e.metric = "dot" -> Dot(e.vs[i], e.vs[j]) >= e.t
(* a reported similarity, cosine and euclidean in 1/1000 *)
SimOK(e, i, j, s) ==
  CASE e.metric = "cosine" ->
         LET n == e.norm[i] * e.norm[j]  d == IF n = 0 THEN 0 ELSE Dot(e.vs[i], e.vs[j])
         IN Abs(s * (IF n = 0 THEN 1 ELSE n) - 1000 * d) <= (IF n = 0 THEN 1 ELSE n)
    [] e.metric = "euclidean" ->
         s >= 0 /\ s <= 1000 /\ Abs((1000 - s) * (1000 - s) - Dist2(e.vs[i], e.vs[j]) * s * s)
            <= 2 * (1000 - s) + 2 * Dist2(e.vs[i], e.vs[j]) * s + Dist2(e.vs[i], e.vs[j]) + 2
    [] e.metric = "dot" -> s = Dot(e.vs[i], e.vs[j])

(* one normalized coordinate in 1/1000 *)
SumAbs(v) == LET f(i) == Abs(v[i]) IN SumTo(f, Len(v))
MaxOf(v) == CHOOSE x \in SeqSet(v) : \A y \in SeqSet(v) : y <= x
MinOf(v) == CHOOSE x \in SeqSet(v) : \A y \in SeqSet(v) : x <= y
NormOK(e, i) ==
  LET v == e.vs[i]  o == e.out[i]
      off == IF e.method = "minmax" THEN MinOf(v) ELSE 0
      den == CASE e.method = "l2" -> e.norm[i] [] e.method = "l1" -> SumAbs(v)
               [] e.method = "max" -> MaxOf([j \in 1..Len(v) |-> Abs(v[j])])
               [] e.method = "minmax" -> MaxOf(v) - MinOf(v)
  IN Len(o) = Len(v) /\ \A j \in 1..Len(v) :
       IF den = 0 THEN o[j] = 0 ELSE Abs(o[j] * den - 1000 * (v[j] - off)) <= den

Suffix(fmt) == CASE fmt = "npz" -> ".npz" [] fmt = "pickle" -> ".pkl" [] fmt = "json" -> ".json"
Faults(s, e) ==
  (IF ~e.intact THEN {"argument changed"} ELSE {}) \cup
  CASE e.op = "save" -> IF e.fmt \notin {"npz", "pickle", "json"}
                        THEN IF e.r = "err" THEN {} ELSE {"unknown format"}
                        ELSE IF e.r = "ok" THEN {} ELSE {"save"}
    [] e.op = "load" ->
         IF e.file \notin DOMAIN s.files THEN IF e.r = "err" THEN {} ELSE {"no such file"}
         ELSE IF e.r = "ok" /\ e.v = s.files[e.file][1] /\ e.m = s.files[e.file][2] THEN {} ELSE {"load"}
    [] e.op = "dup" ->
         LET R(i, j) == Reach(e, i, j)
             G == [i \in 1..Len(e.groups) |-> [j \in 1..Len(e.groups[i]) |-> e.groups[i][j] + 1]]
         IN IF e.r = "ok" /\ GroupsOK(Len(e.vs), R, G) THEN {} ELSE {"groups"}
    [] e.op = "matrix" ->
         IF /\ e.r = "ok" /\ Len(e.sim) = Len(e.vs)
            /\ \A i \in 1..Len(e.vs) : Len(e.sim[i]) = Len(e.vs) /\
                 \A j \in 1..Len(e.vs) : SimOK(e, i, j, e.sim[i][j]) THEN {} ELSE {"similarity"}
    [] e.op = "normalize" ->
         IF e.r = "ok" /\ Len(e.out) = Len(e.vs) /\ \A i \in 1..Len(e.vs) : NormOK(e, i) THEN {} ELSE {"normalized"}
    [] e.op = "search" -> IF e.r = "ok" /\ e.res = e.ref THEN {} ELSE {"batch search"}
    [] e.op = "badmetric" -> IF e.r = "err" THEN {} ELSE {"unknown metric"}
After(s, e) ==
  IF e.op = "save" /\ e.r = "ok"
  THEN [files |-> [f \in DOMAIN s.files \cup {e.file} |->
                     IF f = e.file THEN <<e.v, e.m>> ELSE s.files[f]]]
  ELSE s
=============================================================================
