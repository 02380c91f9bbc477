--------------------------- MODULE SimilarityAlg ---------------------------
(* Laws of the measures of Similarity over all triples of small vectors,    *)
(* and the pairs to put through the code.  Width > 0: numbers as the code    *)
(* would compute them in a machine type of Width values (differences and     *)
(* products wrap around): Exact fails then.                                  *)
EXTENDS Similarity, Json, IOUtils
CONSTANTS Dim, Range, Width, Triples
VARIABLES a, b, c
Vecs == [1..Dim -> -Range..Range]
Init == a \in Vecs /\ b \in Vecs /\ c \in (IF Triples THEN Vecs ELSE {[i \in 1..Dim |-> 0]})
        /\ (IOEnv.EMIT # "1" \/ PrintT("@@P " \o ToJson(<<a, b>>)))
Next == UNCHANGED <<a, b, c>>
Wrap(x) == IF Width = 0 THEN x ELSE ((x + Width \div 2) % Width) - Width \div 2
WDiff(x, y) == [i \in 1..Dim |-> Wrap(x[i] - y[i])]
Exact == /\ Wrap(Dot(a, b)) = Dot(a, b)
         /\ Wrap(N2(WDiff(a, b))) = Euclid2(a, b)
         /\ Wrap(Sum([i \in 1..Dim |-> Wrap(Abs(WDiff(a, b)[i]))])) = Manhattan(a, b)
Symmetric == \A m \in Measures : Value(m, a, b) = Value(m, b, a)
Reflexive == /\ Euclid2(a, a) = 0 /\ Manhattan(a, a) = 0 /\ Chebyshev(a, a) = 0 /\ Hamming(a, a) = 0
             /\ Jaccard(a, a)[1] = Jaccard(a, a)[2] /\ (N2(a) # 0 => Same(Cos2(a, a), <<1, 1>>))
CauchySchwarz == Dot(a, b) * Dot(a, b) <= N2(a) * N2(b)
Triangle == /\ Manhattan(a, c) <= Manhattan(a, b) + Manhattan(b, c)
            /\ Chebyshev(a, c) <= Chebyshev(a, b) + Chebyshev(b, c)
            /\ Hamming(a, c) <= Hamming(a, b) + Hamming(b, c)
            /\ LET x == Euclid2(a, c) y == Euclid2(a, b) z == Euclid2(b, c)  d == x - y - z IN d <= 0 \/ d * d <= 4 * y * z
Order == Chebyshev(a, b) <= Manhattan(a, b) /\ Euclid2(a, b) <= Manhattan(a, b) * Manhattan(a, b)
         /\ Chebyshev(a, b) * Chebyshev(a, b) <= Euclid2(a, b)
Shift(x, n) == [i \in 1..Dim |-> x[i] + n]
Moved == \A m \in Movable, n \in {-7, 1, 1000} : Value(m, Shift(a, n), Shift(b, n)) = Value(m, a, b)
Polar == Euclid2(a, b) = N2(a) + N2(b) - 2 * Dot(a, b)
Unit == N2(a) # 0 => Sum([i \in 1..Dim |-> Abs(Normalized2("l2", a)[i][1])]) = N2(a)
=============================================================================
