------------------------------ MODULE PipeAlg ------------------------------
(* Stage by stage execution of batches of documents, failures at any stage  *)
(* of any document, repeated initialization.  Isolate = FALSE: a failure    *)
(* ends the batch.  Fresh = FALSE: initialization adds to the processors    *)
(* that are there.  Whole = FALSE: processors become usable one by one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Isolate, Fresh, Whole
Order == <<"clean", "chunk", "embed">>
Stages == {"clean", "chunk", "embed"}
VARIABLES conf, procs, on, wanted, batch, i, cur, log, results, inits
vars == <<conf, procs, on, wanted, batch, i, cur, log, results, inits>>
InOrder(c) == SelectSeq(Order, LAMBDA s : s \in c)
Docs == {"ok", "parse", "clean", "chunk", "embed"}      \* the stage a document fails in
Init == /\ conf \in SUBSET Stages /\ procs = <<>> /\ on = FALSE /\ wanted = {} /\ batch = <<>> /\ i = 0 /\ cur = <<>>
        /\ log = <<>> /\ results = <<>> /\ inits = 0
Idle == i = 0
Err == <<"err">>
(* a failure of the initialization after k processors *)
Initialize(k) ==
  /\ Idle /\ inits < 2 /\ k \in 0..Cardinality(conf) /\ inits' = inits + 1
  /\ LET built == SubSeq(InOrder(conf), 1, k)
         old == IF Fresh THEN <<>> ELSE procs
     IN /\ procs' = old \o built
        /\ on' = IF k = Cardinality(conf) THEN TRUE ELSE IF Whole THEN FALSE ELSE on
        /\ wanted' = IF k = Cardinality(conf) THEN conf ELSE wanted
  /\ UNCHANGED <<conf, batch, i, cur, log, results>>
Begin == /\ Idle /\ on /\ batch = <<>> /\ batch' \in UNION {[1..n -> Docs] : n \in 1..N} /\ i' = 1 /\ cur' = <<>>
         /\ log' = <<<<>>>> /\ results' = <<>> /\ UNCHANGED <<conf, procs, on, wanted, inits>>
Plan == <<"parse">> \o procs
Finish(r) ==
  /\ results' = Append(results, r)
  /\ IF i = Len(batch) \/ (r = Err /\ ~Isolate) THEN i' = 0 /\ cur' = <<>> /\ UNCHANGED log
     ELSE i' = i + 1 /\ cur' = <<>> /\ log' = Append(log, <<>>)
  /\ UNCHANGED <<conf, procs, on, wanted, batch, inits>>
Stage ==
  /\ i > 0 /\ Len(cur) < Len(Plan)
  /\ LET s == Plan[Len(cur) + 1] IN
     IF batch[i] = s THEN Finish(Err)
     ELSE /\ cur' = Append(cur, s) /\ log' = [log EXCEPT ![i] = Append(@, s)]
          /\ UNCHANGED <<conf, procs, on, wanted, batch, i, results, inits>>
Done == i > 0 /\ Len(cur) = Len(Plan) /\ Finish(cur)
Again == Idle /\ batch # <<>> /\ batch' = <<>> /\ results' = <<>> /\ log' = <<>> /\ UNCHANGED <<conf, procs, on, wanted, i, cur, inits>>
Next == (\E k \in 0..3 : Initialize(k)) \/ Begin \/ Stage \/ Done \/ Again

Expected(d) == IF d = "ok" \/ (d # "parse" /\ d \notin wanted) THEN <<"parse">> \o InOrder(wanted) ELSE Err
Isolated == \A j \in 1..Len(results) : results[j] = Expected(batch[j])
Lined == Idle /\ batch # <<>> => Len(results) = Len(batch)
=============================================================================
