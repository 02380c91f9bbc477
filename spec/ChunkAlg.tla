------------------------------ MODULE ChunkAlg ------------------------------
(* The splitting algorithms satisfy the requirements on every text up to    *)
(* length N over {letter, blank, newline} and every small configuration.    *)
(* Cap = FALSE: the size is not limited by the largest chunk; then chunks    *)
(* are lost and Fine fails.                                                 *)
EXTENDS Chunk, Json, IOUtils
CONSTANTS N, SMax, Cap
VARIABLES T, c
Alphabet == {97, -32, -10}
Configs == {[S |-> s, O |-> o, m |-> m, M |-> x] : s \in 1..SMax, o \in 0..(SMax - 1), m \in 0..3, x \in {2, SMax + 4}}
Init == T = <<>> /\ c \in {k \in Configs : k.O < Min2(k.S, k.M)}
Next == Len(T) < N /\ \E a \in Alphabet : T' = Append(T, IF a = 97 THEN 97 + Len(T) ELSE a) /\ UNCHANGED c
Fine == /\ PlainOK(T, c, Keep(c, Fixed(T, c, 0, 0, Cap)))
        /\ Forward(T, Keep(c, Fixed(T, c, 0, 0, Cap)))
        /\ Cap => PlainOK(T, c, Keep(c, Sliding(T, c, 0, 0)))
=============================================================================
