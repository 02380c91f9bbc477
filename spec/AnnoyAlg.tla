------------------------------ MODULE AnnoyAlg ------------------------------
(* Searching Annoy's trees with the default budget.  Each tree splits the   *)
(* built items into leaves in any way; a search opens leaves of all trees   *)
(* in any order until it has collected as many entries as its budget        *)
(* (repeated ones count), and drops the items removed since.                *)
(* Extra: trees that appear twice after loading (as happens when several    *)
(* threads build them); LiveBudget: the budget counts live items only.      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Items, Trees, Extra, LiveBudget
VARIABLES leafOf, removed, closed, got, left
vars == <<leafOf, removed, closed, got, left>>
(* leafOf[t][i]: the leaf of item i in tree t, named by its smallest member *)
AllTrees == 1..(Trees + Extra)
Leafs(t) == {leafOf[t][i] : i \in Items}
Init == /\ leafOf \in {f \in [AllTrees -> [Items -> Items]] :
                        /\ \A t \in AllTrees : \A i \in Items : f[t][i] <= i /\ f[t][f[t][i]] = f[t][i]
                        /\ \A t \in AllTrees : t > Trees => f[t] = f[1]}
        /\ removed \in SUBSET Items
        /\ closed = FALSE /\ got = {} /\ left = {<<t, l>> : t \in AllTrees, l \in Items} \cap
                                           UNION {{<<t, l>> : l \in Leafs(t)} : t \in AllTrees}
Budget == Trees * Cardinality(IF LiveBudget THEN Items \ removed ELSE Items)
(* entries collected so far: all opened leaves with repetitions *)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0
            ELSE LET p == CHOOSE p \in S : TRUE
                 IN Cardinality({i \in Items : leafOf[p[1]][i] = p[2]}) + Total(S \ {p})
Opened == UNION {{<<t, l>> : l \in Leafs(t)} : t \in AllTrees} \ left
Open == /\ ~closed /\ left # {} /\ Total(Opened) < Budget
        /\ \E p \in left : /\ left' = left \ {p}
                           /\ got' = got \cup {i \in Items : leafOf[p[1]][i] = p[2]}
        /\ UNCHANGED <<leafOf, removed, closed>>
Stop == ~closed /\ (left = {} \/ Total(Opened) >= Budget) /\ closed' = TRUE /\ UNCHANGED <<leafOf, removed, got, left>>
Next == Open \/ Stop
AllFound == closed => Items \ removed \subseteq got
=============================================================================
