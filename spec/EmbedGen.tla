------------------------------ MODULE EmbedGen ------------------------------
(* An embedding cache and callers who change the vectors they get.  The     *)
(* cache maps keys to vectors; Key = "full" is the design.  Copies = FALSE  *)
(* (cached vector handed out itself) and Key = "short" (texts with a common *)
(* beginning share an entry) violate Exact.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Copies, Key, Caching
Texts == {"ab", "ac", "b", "blank", "fail"}
KeyOf(t) == IF Key = "full" THEN t ELSE CASE t = "ab" -> "a" [] t = "ac" -> "a" [] OTHER -> t
VARIABLES cache, held, ini, last
None == <<>>
Value(t) == IF t = "blank" THEN "zero" ELSE t
(* held: [text, val, alias] of the last result: alias = its entry in the cache *)
Init == cache = None /\ held = <<>> /\ ini = FALSE /\ last = <<>>
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<[c |-> DOMAIN cache, h |-> held # <<>>, i |-> ini], op, [c |-> DOMAIN cache', h |-> held' # <<>>, i |-> ini']>>))
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Embed(t) ==
  /\ ini /\ t # "fail"
  /\ LET k == KeyOf(t)
         hit == Caching /\ t # "blank" /\ k \in DOMAIN cache
         v == IF hit THEN cache[k] ELSE Value(t)
     IN /\ last' = <<t, v>>
        /\ cache' = IF Caching /\ t # "blank" THEN Set(cache, k, v) ELSE cache
        /\ held' = IF Caching /\ t # "blank" THEN <<k>> ELSE <<"none">>
  /\ UNCHANGED ini /\ Emit([op |-> "embed", t |-> t])
Refuse(t) == (~ini \/ t = "fail") /\ last' = <<>> /\ UNCHANGED <<cache, held, ini>> /\ Emit([op |-> "embed", t |-> t])
Spoil == /\ held # <<>> /\ last' = <<>>
         /\ cache' = IF ~Copies /\ held[1] \in DOMAIN cache THEN [cache EXCEPT ![held[1]] = "spoiled"] ELSE cache
         /\ UNCHANGED <<held, ini>> /\ Emit([op |-> "spoil"])
Clear == cache' = None /\ last' = <<>> /\ UNCHANGED <<held, ini>> /\ Emit([op |-> "clear"])
Start == ini' = TRUE /\ last' = <<>> /\ UNCHANGED <<cache, held>> /\ Emit([op |-> "init"])
Stop == ini' = FALSE /\ last' = <<>> /\ UNCHANGED <<cache, held>> /\ Emit([op |-> "close"])
Next == (\E t \in Texts : Embed(t) \/ Refuse(t)) \/ Spoil \/ Clear \/ Start \/ Stop
Exact == last = <<>> \/ last[2] = Value(last[1])
CacheExact == \A k \in DOMAIN cache : cache[k] = k
=============================================================================
