------------------------------- MODULE IvfAlg -------------------------------
(* The IVF index as it works: until NClus vectors are there it searches all *)
(* of them, then it is trained once, with any centroids whatever, and every *)
(* vector is kept in the cluster of the first nearest centroid.  A search   *)
(* probes the clusters in the order of their centroids' distances.          *)
(* Vectors are points of a line.  Tie: the rule of assignment ("first" as   *)
(* the search uses, or "last"); Move: an update moves the vector to the     *)
(* cluster of its new value; Wipe: deleting removes from the clusters.      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ids, Len1, NClus, Tie, Move, Wipe
Points == 0..Len1
VARIABLES kv, cent, clu
vars == <<kv, cent, clu>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dom == DOMAIN kv
Trained == cent # <<>>
Init == kv = [x \in {} |-> 0] /\ cent = <<>> /\ clu = [c \in 1..NClus |-> {}]
Nearest(cs, v) ==
  LET near == {c \in 1..NClus : \A b \in 1..NClus : Abs(cs[c] - v) <= Abs(cs[b] - v)}
  IN CHOOSE c \in near : \A b \in near : IF Tie = "first" THEN c <= b ELSE c >= b
Put(x, v) == [y \in Dom \cup {x} |-> IF y = x THEN v ELSE kv[y]]
(* centroids are means of vectors, at twice the scale for halves; anything is allowed *)
Insert(x, v) ==
  /\ x \notin Dom /\ kv' = Put(x, v)
  /\ IF Trained
     THEN /\ clu' = [clu EXCEPT ![Nearest(cent, v)] = @ \cup {x}] /\ UNCHANGED cent
     ELSE IF Cardinality(Dom) + 1 >= NClus
     THEN \E cs \in [1..NClus -> Points] :
            /\ cent' = cs
            /\ clu' = [c \in 1..NClus |-> {y \in Dom \cup {x} : Nearest(cs, Put(x, v)[y]) = c}]
     ELSE UNCHANGED <<cent, clu>>
Update(x, v) ==
  /\ x \in Dom /\ kv' = Put(x, v) /\ UNCHANGED cent
  /\ clu' = IF ~Trained \/ ~Move THEN clu
            ELSE [c \in 1..NClus |-> (clu[c] \ {x}) \cup (IF c = Nearest(cent, v) THEN {x} ELSE {})]
Delete(x) ==
  /\ x \in Dom /\ kv' = [y \in Dom \ {x} |-> kv[y]] /\ UNCHANGED cent
  /\ clu' = IF Wipe THEN [c \in 1..NClus |-> clu[c] \ {x}] ELSE clu
Next == \E x \in Ids : Delete(x) \/ \E v \in Points : Insert(x, v) \/ Update(x, v)
(* ------------------------------------------------------------- search *)
Rank(q, c) == Cardinality({b \in 1..NClus : \/ Abs(cent[b] - q) < Abs(cent[c] - q)
                                            \/ Abs(cent[b] - q) = Abs(cent[c] - q) /\ b < c})
Candidates(q, probes) ==
  IF ~Trained THEN Dom ELSE UNION {clu[c] : c \in {c \in 1..NClus : Rank(q, c) < probes}}
Partition ==
  Trained => /\ UNION {clu[c] : c \in 1..NClus} = Dom
             /\ \A c, b \in 1..NClus : c # b => clu[c] \cap clu[b] = {}
Self == \A x \in Dom : \E y \in Candidates(kv[x], 1) : y \in Dom /\ kv[y] = kv[x]
AllProbes == \A q \in Points : Candidates(q, NClus) = Dom
=============================================================================
