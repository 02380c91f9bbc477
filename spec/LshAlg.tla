------------------------------- MODULE LshAlg -------------------------------
(* The LSH index as it works, for every hash function: each table files a   *)
(* vector under the code of its current value.  OldCode: an update takes    *)
(* the vector out of the buckets of its old value (and not of the new one); *)
(* AllTables: it does so in every table.                                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Ids, Vecs, Tables, OldCode, AllTables
VARIABLES h, kv, bucket
vars == <<h, kv, bucket>>
Codes == {0, 1}
(* bucket: how often an id is in the bucket of a code of a table *)
Init == /\ h \in [Tables \X Vecs -> Codes]
        /\ kv = [x \in {} |-> 0]
        /\ bucket = [b \in Tables \X Codes |-> [x \in Ids |-> 0]]
Dom == DOMAIN kv
In(B, x, v, T) == [b \in DOMAIN B |-> IF b[1] \in T /\ h[b[1], v] = b[2] THEN [B[b] EXCEPT ![x] = @ + 1] ELSE B[b]]
Out(B, x, v, T) == [b \in DOMAIN B |-> IF b[1] \in T /\ h[b[1], v] = b[2] /\ B[b][x] > 0
                                       THEN [B[b] EXCEPT ![x] = @ - 1] ELSE B[b]]
Put(x, v) == [y \in Dom \cup {x} |-> IF y = x THEN v ELSE kv[y]]
Touched == IF AllTables THEN Tables ELSE {CHOOSE t \in Tables : TRUE}
Add(x, v) == x \notin Dom /\ kv' = Put(x, v) /\ bucket' = In(bucket, x, v, Tables)
Update(x, v) == /\ x \in Dom /\ kv' = Put(x, v)
                /\ bucket' = In(Out(bucket, x, IF OldCode THEN kv[x] ELSE v, Touched), x, v, Touched)
Remove(x) == x \in Dom /\ kv' = [y \in Dom \ {x} |-> kv[y]] /\ bucket' = Out(bucket, x, kv[x], Tables)
Next == /\ UNCHANGED h
        /\ \E x \in Ids : Remove(x) \/ \E v \in Vecs : Add(x, v) \/ Update(x, v)
Found(v) == UNION {{x \in Ids : bucket[<<t, h[t, v]>>][x] > 0} : t \in Tables}
Self == \A x \in Dom : x \in Found(kv[x])
Filed == \A t \in Tables, x \in Ids, c \in Codes :
           bucket[<<t, c>>][x] = IF x \in Dom /\ h[t, kv[x]] = c THEN 1 ELSE 0
=============================================================================
