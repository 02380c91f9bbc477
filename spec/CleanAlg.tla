------------------------------ MODULE CleanAlg ------------------------------
(* What the sequence of steps guarantees, for all texts up to length N over *)
(* an alphabet with markup, entities, blanks, case, compatibility forms and *)
(* a stop word, under all combinations of switches.                         *)
EXTENDS Clean
CONSTANT N
VARIABLES T, c
Alphabet == {97, 66, 32, 10, 60, 62, 35, 46, -60, -38, 160, 233, 64257, 65308, 304}
Init == T = <<>> /\ c \in [html : BOOLEAN, uni : BOOLEAN, special : {"off", "default"}, ws : BOOLEAN, extra : BOOLEAN,
                           lower : BOOLEAN, stop : BOOLEAN, minw : {1}, maxw : {2, 50}, stopwords : {<< <<97>> >>}]
Next == Len(T) < N /\ \E a \in Alphabet : T' = Append(T, a) /\ UNCHANGED c
Guarantees == NoTrace(c, T) /\ Idempotent(c, T)
=============================================================================
