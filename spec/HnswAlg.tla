------------------------------ MODULE HnswAlg ------------------------------
(* The HNSW index as it works: every vector on level 0 and up to a random   *)
(* level, connected both ways with up to M others of each of its levels.    *)
(* The graph is the state; the distances from the query are quantified over *)
(* (all ranks of the live nodes), which covers updates as well: they change *)
(* distances and leave the graph alone.                                     *)
(* Jump: when all nodes found are expanded and there are too few, go on in  *)
(* another part of the graph.  Sweep: deleting removes a node from all      *)
(* levels.  The search starts on the highest level that has nodes.          *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, M, Top, Jump, Sweep
Nodes == 1..N
Levels == 0..Top
VARIABLES on, adj, tall
vars == <<on, adj, tall>>
(* on[l]: nodes of level l; adj: edges <<l, {x, y}>>; tall: levels that exist *)
Live == on[0]
Init == on = [l \in Levels |-> {}] /\ adj = {} /\ tall = 0
Neigh(l, x) == {y \in Nodes : <<l, {x, y}>> \in adj /\ y # x}
Min(a, b) == IF a < b THEN a ELSE b
Links(S) == {Q \in SUBSET S : Cardinality(Q) = Min(M, Cardinality(S))}
Insert(x) ==
  /\ x \notin Live
  /\ \E h \in Levels : \E f \in [0..h -> SUBSET Nodes] :
       /\ \A l \in 0..h : f[l] \in Links(on[l] \ {x})
       /\ on' = [l \in Levels |-> IF l <= h THEN on[l] \cup {x} ELSE on[l]]
       /\ adj' = adj \cup UNION {{<<l, {x, y}>> : y \in f[l]} : l \in 0..h}
       /\ tall' = IF h > tall THEN h ELSE tall
Delete(x) ==
  /\ x \in Live
  /\ on' = [l \in Levels |-> IF l = 0 \/ Sweep THEN on[l] \ {x} ELSE on[l]]
  /\ adj' = {e \in adj : x \notin e[2]}
  /\ UNCHANGED tall
Next == \E x \in Nodes : Insert(x) \/ Delete(x)

(* ------------------------------------------------------------- search *)
(* the n best of S under rank d (ties by name) *)
Before(d, x, y) == d[x] < d[y] \/ (d[x] = d[y] /\ x < y)
Best(d, S, n) == {x \in S : Cardinality({y \in S : Before(d, y, x)}) < n}
First(d, S) == CHOOSE x \in S : \A y \in S : y = x \/ Before(d, x, y)
RECURSIVE Down(_, _, _, _)
Down(d, ef, l, C) ==
  IF l = 0 THEN C
  ELSE Down(d, ef, l - 1, Best(d, C \cup UNION {Neigh(l, x) \cap Live : x \in C}, ef))
RECURSIVE Walk(_, _, _, _)
Walk(d, ef, found, done) ==
  LET open == Best(d, found, ef) \ done IN
  IF open = {}
  THEN IF Cardinality(found) >= Min(ef, Cardinality(Live)) \/ ~Jump THEN found
       ELSE LET x == CHOOSE x \in Live \ found : TRUE
            IN Walk(d, ef, found \cup {x} \cup Neigh(0, x), done \cup {x})
  ELSE LET x == First(d, open)
       IN Walk(d, ef, found \cup Neigh(0, x), done \cup {x})
RECURSIVE Start(_)
Start(l) == IF l > 0 /\ on[l] = {} THEN Start(l - 1) ELSE l
Search(d, k0, ef0, entry, l) ==
  LET k == Min(k0, Cardinality(Live))
      ef == IF ef0 > k THEN ef0 ELSE k
  IN Best(d, Walk(d, ef, Down(d, ef0, l, entry), {}), k)
Entries(l) == IF on[l] = {} THEN {{}} ELSE {{x} : x \in on[l]}
(* the ranks of the live nodes: no order is special, and equal ranks *)
Ranks == {d \in [Live -> 1..Cardinality(Live)] :
            \/ \A x, y \in Live : x # y => d[x] # d[y]
            \/ \A x \in Live : d[x] \in {1, 2} /\ \E y \in Live : d[y] = 1}
Asked == {1, 2, N}
(* exactly min(k, n) live results *)
Full == Live # {} =>
  LET l == Start(tall) IN
  \A d \in Ranks, k \in Asked, ef \in {1, 2}, entry \in Entries(l) :
     /\ entry \subseteq Live
     /\ LET r == Search(d, k, ef, entry, l) IN r \subseteq Live /\ Cardinality(r) = Min(k, Cardinality(Live))
(* ef covers the index: the true nearest *)
Exact == Live # {} =>
  LET l == Start(tall) IN
  \A d \in Ranks, k \in Asked, entry \in Entries(l) :
     entry \subseteq Live =>
       LET r == Search(d, k, N, entry, l)
       IN \A x \in r, y \in Live \ r : d[x] <= d[y]
Consistent ==
  /\ \A l \in 1..Top : on[l] \subseteq on[l - 1]
  /\ \A e \in adj : e[2] \subseteq on[e[1]]
=============================================================================
