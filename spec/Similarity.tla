----------------------------- MODULE Similarity -----------------------------
(* Similarities and distances of integer vectors, exactly.  A recorded      *)
(* number is a fraction <<p, q>> in lowest terms, q > 0 (the driver only     *)
(* reports the fraction its floating-point number stands for); roots are     *)
(* recorded as their signed squares: <<-1, 2>> is -sqrt(1/2).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
Sum(q) == SumTo(q, Len(q))
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
N2(a) == Dot(a, a)
Euclid2(a, b) == Sum([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
Manhattan(a, b) == Sum([i \in 1..Len(a) |-> Abs(a[i] - b[i])])
Chebyshev(a, b) == Max({Abs(a[i] - b[i]) : i \in 1..Len(a)})
L1(a) == Sum([i \in 1..Len(a) |-> Abs(a[i])])
LMax(a) == Max({Abs(a[i]) : i \in 1..Len(a)})
On(a) == {i \in 1..Len(a) : a[i] > 0}
Hamming(a, b) == Cardinality((On(a) \ On(b)) \cup (On(b) \ On(a)))
Jaccard(a, b) == LET u == Cardinality(On(a) \cup On(b)) IN
                 IF u = 0 THEN <<1, 1>> ELSE <<Cardinality(On(a) \cap On(b)), u>>
Same(f, g) == f[1] * g[2] = g[1] * f[2] /\ f[2] > 0 /\ g[2] > 0
Whole(n) == <<n, 1>>
(* signed square of the cosine; 0 if one of the vectors is zero *)
Cos2(a, b) == IF N2(a) = 0 \/ N2(b) = 0 THEN <<0, 1>>
              ELSE <<Sgn(Dot(a, b)) * Dot(a, b) * Dot(a, b), N2(a) * N2(b)>>
Norm2(kind, a) == CASE kind = "l2" -> N2(a) [] kind = "l1" -> L1(a) * L1(a) [] OTHER -> LMax(a) * LMax(a)
Normalized2(kind, a) == [i \in 1..Len(a) |-> IF Norm2(kind, a) = 0 THEN <<0, 1>>
                                             ELSE <<Sgn(a[i]) * a[i] * a[i], Norm2(kind, a)>>]
(* the value of a measure of two vectors, as recorded *)
Measures == {"cosine", "cosine_distance", "euclidean", "euclidean2", "dot", "manhattan", "chebyshev", "hamming",
             "jaccard", "jaccard_distance"}
(* the same if both vectors are moved (e.moved: the vectors given to the    *)
(* code were a and b with the same large number added to every coordinate)  *)
Movable == {"euclidean", "euclidean2", "manhattan", "chebyshev"}
OneMinus(f) == <<f[2] - f[1], f[2]>>
Value(m, a, b) ==
  CASE m \in {"cosine", "cosine_distance"} -> Cos2(a, b)      \* distances: the driver records 1 - d squared
    [] m = "euclidean" -> Whole(Euclid2(a, b)) [] m = "euclidean2" -> Whole(Euclid2(a, b))
    [] m = "dot" -> Whole(Dot(a, b)) [] m = "manhattan" -> Whole(Manhattan(a, b))
    [] m = "chebyshev" -> Whole(Chebyshev(a, b)) [] m = "hamming" -> Whole(Hamming(a, b))
    [] m = "jaccard" -> Jaccard(a, b) [] m = "jaccard_distance" -> OneMinus(Jaccard(a, b))

(* ------------------------------------------------- recorded calls: faults *)
(* shapes: sa, sb the numbers of axes; a, b the vectors when both are 1     *)
Close(f, g) == Len(f) = 2 /\ Same(f, g)
GoodCall(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "measure" ->
         IF e.sa # 1 \/ e.sb # 1 \/ Len(e.a) # Len(e.b) THEN e.r = "value_error"
         ELSE e.r = "ok" /\ e.inrange /\ Close(e.v, Value(e.m, e.a, e.b)) /\ (e.moved => e.m \in Movable)
    [] e.op = "normalize" ->
         IF e.sa # 1 \/ e.kind \notin {"l1", "l2", "max"} THEN e.r = "value_error"
         ELSE e.r = "ok" /\ e.kept /\ Len(e.vs) = Len(e.a)
              /\ \A i \in 1..Len(e.a) : Close(e.vs[i], Normalized2(e.kind, e.a)[i])
    [] e.op = "batch" ->
         IF e.sa # 2 \/ e.sb # 2 \/ e.da # e.db THEN e.r = "value_error"
         ELSE e.r = "ok" /\ e.inrange /\ Len(e.vs) = Len(e.as)
              /\ \A i \in 1..Len(e.as) : Len(e.vs[i]) = Len(e.bs)
                   /\ \A j \in 1..Len(e.bs) : Close(e.vs[i][j], Cos2(e.as[i], e.bs[j]))
    [] OTHER -> FALSE
=============================================================================
