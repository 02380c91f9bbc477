------------------------------ MODULE StatsGen ------------------------------
(* Accounting: a store whose usage is kept up to date instead of recounted   *)
(* (variant Forgets: overwriting forgets what the old entry took), and an    *)
(* embedding processor that counts as it goes.  The histories are replayed   *)
(* on the real stores.                                                       *)
EXTENDS Stats, Json, IOUtils
CONSTANTS Ids, Forgets, MaxText
VARIABLES st, used, count
Sizes == {[vb |-> 4, mb |-> 0], [vb |-> 8, mb |-> 0], [vb |-> 4, mb |-> 3]}
Init == st = [Fresh("memory") EXCEPT !.ini = TRUE] /\ used = 0 /\ count = 0
Size(x) == x.vb + x.mb
Emit(e, t) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<st.live, e, t.live>>))
Do(e) == LET t == After(st, e)
             old == IF e.id \in DOMAIN st.live THEN Size(st.live[e.id]) ELSE 0
             new == IF e.op = "delete" THEN 0 ELSE e.vb + e.mb IN
         /\ st' = t
         /\ used' = used + new - (IF Forgets /\ e.op # "delete" THEN 0 ELSE old)
         /\ count' = count + (IF e.op = "delete" THEN -1 ELSE IF e.id \in DOMAIN st.live THEN 0 ELSE 1)
         /\ Emit(e, t)
Next == \E i \in Ids :
   \/ \E x \in Sizes : Do([op |-> "store", id |-> i, vb |-> x.vb, mb |-> x.mb, r |-> "true"])
   \/ i \in DOMAIN st.live /\ \E x \in Sizes : Do([op |-> "update", id |-> i, vb |-> x.vb, mb |-> x.mb, r |-> "true"])
   \/ i \in DOMAIN st.live /\ Do([op |-> "delete", id |-> i, vb |-> 0, mb |-> 0, r |-> "true"])
Accounts == Memory(st.live, [count |-> count, bytes |-> used, mb |-> used]) = {}
(* every text is either embedded or found, and blank texts are neither       *)
Texts == UNION {[1..k -> {"a", "b", "blank"}] : k \in 0..MaxText}
Counts == st.live = None => \A q \in Texts, c \in BOOLEAN :
  LET t == Embed(Fresh("embedding"), q, c)
      real == Len(SelectSeq(q, LAMBDA x : x # "blank")) IN
  /\ t.n.made + t.n.hits = real
  /\ t.n.made = t.n.docs
  /\ c => t.n.made = Cardinality(SeqSet(q) \ {"blank"}) /\ t.known = SeqSet(q) \ {"blank"}
  /\ ~c => t.n.hits = 0
=============================================================================
