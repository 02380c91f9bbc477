------------------------------- MODULE DupAlg -------------------------------
(* For every similarity relation on N vectors the greedy grouping is the    *)
(* one and only grouping GroupsOK accepts (up to the order of groups and    *)
(* members).                                                                *)
EXTENDS Helpers
CONSTANT N
VARIABLES rel, phase
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Init == rel \in SUBSET Pairs /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED rel
R(i, j) == <<i, j>> \in rel \/ <<j, i>> \in rel
G0 == Greedy(N, R, 1, {})
GreedyOK == GroupsOK(N, R, G0)
(* every assignment of vectors to leaders (itself = ungrouped or leader) *)
Assign == {a \in [1..N -> 1..N] : \A i \in 1..N : a[i] <= i /\ a[a[i]] = a[i]}
Members(a, i) == SelectSeq([k \in 1..N |-> k], LAMBDA j : a[j] = i)
RECURSIVE Groups(_, _)
Groups(a, i) == IF i > N THEN <<>>
                ELSE (IF a[i] = i /\ Len(Members(a, i)) >= 2 THEN <<Members(a, i)>> ELSE <<>>) \o Groups(a, i + 1)
Unique == \A a \in Assign : GroupsOK(N, R, Groups(a, 1)) => Groups(a, 1) = G0
=============================================================================
