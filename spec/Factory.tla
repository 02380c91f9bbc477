------------------------------ MODULE Factory ------------------------------
(* Creating databases from parameters, templates and recommendations.       *)
(* tabs: what the library publishes (recorded before anything was created): *)
(*   tabs.templates[name] = [idx, stor, cfg]  tabs.defaults[idx] = all the  *)
(*   parameters of that index with their default values                     *)
(*   tabs.names[category] = the configurations of the category              *)
(* All parameter values are strings; functions are records.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Storages == {"memory", "disk", "hybrid"}
Merge(base, over) == [k \in DOMAIN base \cup DOMAIN over |-> IF k \in DOMAIN over THEN over[k] ELSE base[k]]
(* the parameters an index of this type must have *)
Shown(tabs, idx, cfg) ==
  [k \in DOMAIN tabs.defaults[idx] |-> IF k \in DOMAIN cfg THEN cfg[k] ELSE tabs.defaults[idx][k]]
None == <<>>
(* the request as <<index, storage, index configuration>>; e.cfg is the     *)
(* explicit configuration, e.rec the recommendation for the same request    *)
Resolve(tabs, e) ==
  CASE e.how = "plain" ->
         IF e.idx # "" THEN <<e.idx, e.stor, e.cfg>>
         ELSE <<e.rec.idx, e.stor, Merge(e.rec.cfg, e.cfg)>>
    [] e.how = "template" ->
         IF e.name \notin DOMAIN tabs.templates THEN <<"", "", None>>
         ELSE LET t == tabs.templates[e.name]
                  idx == IF e.idx # "" THEN e.idx ELSE t.idx
                  stor == IF e.stor # "" THEN e.stor ELSE t.stor
              IN <<idx, stor, IF e.hascfg THEN e.cfg ELSE IF idx = t.idx THEN t.cfg ELSE None>>
    [] e.how = "document" -> <<e.idx, e.stor, e.cfg>>
Valid(tabs, w) == w[1] \in DOMAIN tabs.defaults /\ w[2] \in Storages
Matches(tabs, w, e) ==
  /\ e.open
  /\ e.got.idx = w[1] /\ e.got.stor = w[2]
  /\ (e.dir # "" => e.got.dir = e.dir)
  /\ LET want == Shown(tabs, w[1], w[3]) IN
     DOMAIN e.got.par = DOMAIN want /\
     \A k \in DOMAIN want : (e.how # "document" \/ k \in DOMAIN e.cfg) => e.got.par[k] = want[k]

(* vectors with ids e.ids went in; e.found[i]: result ids of a search for   *)
(* the i-th vector                                                          *)
UseOK(e) ==
  /\ e.r = "ok" /\ Cardinality(SeqSet(e.ids)) = e.n /\ Len(e.ids) = e.n
  /\ e.count = e.n
  /\ Len(e.found) = e.n
  /\ \A i \in 1..e.n : /\ SeqSet(e.found[i]) \subseteq SeqSet(e.ids)
                       /\ e.ids[i] \in SeqSet(e.found[i])
                       /\ Cardinality(SeqSet(e.found[i])) = Len(e.found[i])
                       /\ Len(e.found[i]) <= e.k

(* the pipeline of a document database: markup and surplus blanks go, the   *)
(* case stays, chunks are those of the requested size and overlap, each     *)
(* vector is the normalized one of its text, and a repeated document needs  *)
(* no new embedding                                                         *)
DocOK(e) ==
  /\ e.r = "ok" /\ e.clean /\ e.chunks = e.want
  /\ Len(e.vecs) = Len(e.want) + 1 /\ SeqSet(e.vecs) = {TRUE} /\ e.again = 0
Faults(tabs, e) ==
  CASE e.op = "create" ->
         LET w == Resolve(tabs, e) IN
         IF ~Valid(tabs, w) THEN IF e.r = "err" THEN {} ELSE {"unknown name accepted"}
         ELSE IF e.r # "ok" THEN {"not created"}
         ELSE IF Matches(tabs, w, e) THEN {} ELSE {"not what was requested"}
    [] e.op = "doc" -> IF DocOK(e) THEN {} ELSE {"document pipeline"}
    [] e.op = "use" -> IF UseOK(e) THEN {} ELSE {"does not work"}
    [] e.op = "recommend" ->
         (* both recommendations name the same, existing index *)
         IF e.r = "ok" /\ e.a.idx \in DOMAIN tabs.defaults /\ e.b.idx = e.a.idx /\ e.stor = e.wantstor
         THEN {} ELSE {"recommendation"}
    [] e.op = "get" ->
         (* a published configuration is always the published one *)
         IF e.known THEN IF e.r = "ok" /\ e.same THEN {} ELSE {"configuration changed"}
         ELSE IF e.r = "err" THEN {} ELSE {"unknown configuration"}
    [] e.op = "list" ->
         (* what is listed is what is published; "" stands for all categories *)
         IF e.r = "ok" /\ SeqSet(e.listed) = UNION {SeqSet(tabs.names[c]) : c \in IF e.cat = "" THEN DOMAIN tabs.names ELSE {e.cat}}
         THEN {} ELSE {"listing"}
    [] e.op = "spoil" -> {}
    [] e.op = "texts" ->
         (* search databases over texts: the i-th text finds its own entry  *)
         IF e.r = "ok" /\ e.count = e.n /\ e.found = [i \in 1..e.n |-> i] /\ e.meta THEN {} ELSE {"texts"}
    [] e.op = "bad" -> IF e.r = "err" THEN {} ELSE {"bad argument accepted"}
=============================================================================
