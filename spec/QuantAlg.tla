----------------------------- MODULE QuantAlg -----------------------------
(* The algorithms of the quantizers in exact arithmetic, checked against    *)
(* the abstract requirements of Quant for all small parameters: rounding    *)
(* and clipping of the scalar quantizer, bit allocation of SAQ.  The same   *)
(* requirements must reject the nearby wrong algorithms (Sharp).            *)
EXTENDS Quant
CONSTANTS MaxV, MaxB, MaxTotal
VARIABLES lo, hi, x, bits, total, w
vars == <<lo, hi, x, bits, total, w>>
Init == \/ /\ lo \in 0..MaxV /\ hi \in 0..MaxV /\ lo <= hi /\ x \in (0 - 2)..(MaxV + 2)
           /\ bits \in 1..MaxB /\ total = 0 /\ w = <<>>
        \/ /\ lo = 0 /\ hi = 0 /\ x = 0 /\ bits = 0 /\ total \in 1..MaxTotal
           /\ w \in UNION {[1..n -> 0..3] : n \in 1..Min2(4, total)}
           /\ \E i \in DOMAIN w : w[i] > 0
Next == UNCHANGED vars

(* ---- scalar ---- *)
L == Pow2(bits) - 1
R == IF lo = hi THEN L ELSE hi - lo     \* a constant dimension has step 1
RoundHalf(n, d) == (2 * n + d) \div (2 * d)
Clip(q) == IF q < 0 THEN 0 ELSE IF q > L THEN L ELSE q
Code(mode) == Clip(IF mode = "floor" THEN ((x - lo) * L) \div R
                   ELSE IF mode = "wrap" THEN RoundHalf((x - lo) * L, R) % (L + 1)
                   ELSE RoundHalf((x - lo) * L, R))
Decode(q) == <<lo + (q * R) \div L, (((q * R) % L) * 1000000) \div L>>
C == [kind |-> "scalar", bits |-> bits]
St == [open |-> TRUE, tr |-> <<[vs |-> <<<<lo>>, <<hi>>>>]>>, seen |-> {}]
ScalarDesign == bits > 0 => CodedOK(C, St, <<x>>, <<Code("round")>>, <<Decode(Code("round"))>>)
(* the requirement is sharp: flooring and wrapping are told apart           *)
Far(q) == LET y == Decode(q) IN
          lo < hi /\ (IF x < lo THEN Abs(Err(y, lo)) > Slack(lo, hi, x)
                      ELSE IF x > hi THEN Abs(Err(y, hi)) > Slack(lo, hi, x)
                      ELSE Abs(Err(y, x)) > (R * 500000) \div L + 1 + Slack(lo, hi, x))
Sharp == bits > 0 => \A m \in {"floor", "wrap"} :
           Far(Code(m)) => ~CodedOK(C, St, <<x>>, <<Code(m)>>, <<Decode(Code(m))>>)

(* ---- SAQ bit allocation ---- *)
N == Len(w)
WSum == LET f(i) == w[i] IN SumTo(f, N)
RECURSIVE Alloc(_, _)
Alloc(i, left) ==
  IF i > N THEN <<>>
  ELSE LET b == IF i = N THEN left
                ELSE Min2(Max2(1, (total * w[i]) \div WSum), left - (N - i))
       IN <<b>> \o Alloc(i + 1, left - b)
SaqC == [kind |-> "saq", nseg |-> N, total |-> total]
SaqDesign == N > 0 =>
   SegmentsOK(SaqC, <<[i \in 1..N |-> 0]>>, [i \in 1..N |-> <<i - 1, i>>], Alloc(1, total))
=============================================================================
