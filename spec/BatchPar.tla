------------------------------ MODULE BatchPar ------------------------------
(* Parallel batch insertion: W workers take batches from a queue and insert *)
(* them into one database (ids come from one counter), a collector gathers  *)
(* the finished batches in any order.  ByIndex: the collector puts the ids  *)
(* together by position of the batch (the code does) rather than by order   *)
(* of completion (refuted).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NB, W, Size, Last, ByIndex       \* NB batches of Size items, the last one of Last
VARIABLES queue, running, finished, got, order, ids, next, proc, fail, bad, out
vars == <<queue, running, finished, got, order, ids, next, proc, fail, bad, out>>
B == 1..NB
Items(b) == IF b = NB THEN Last ELSE Size
Total == (NB - 1) * Size + Last
Init == /\ queue = 1 /\ running = {} /\ finished = {} /\ got = {} /\ order = <<>>
        /\ ids = [b \in B |-> <<>>] /\ next = 1 /\ proc = 0 /\ fail = 0 /\ out = <<>>
        /\ bad \in SUBSET B
Take == /\ queue <= NB /\ Cardinality(running) < W
        /\ running' = running \cup {queue} /\ queue' = queue + 1
        /\ UNCHANGED <<finished, got, order, ids, next, proc, fail, bad, out>>
Insert(b) ==     \* one call of the client: all or nothing, under its lock
  /\ b \in running
  /\ IF b \in bad THEN UNCHANGED <<ids, next>>
     ELSE /\ ids' = [ids EXCEPT ![b] = [j \in 1..Items(b) |-> next + j - 1]]
          /\ next' = next + Items(b)
  /\ running' = running \ {b} /\ finished' = finished \cup {b} /\ order' = Append(order, b)
  /\ UNCHANGED <<queue, got, proc, fail, bad, out>>
Collect(b) ==
  /\ b \in finished \ got
  /\ got' = got \cup {b}
  /\ IF b \in bad THEN fail' = fail + Items(b) /\ UNCHANGED <<proc, out>>
     ELSE proc' = proc + Items(b) /\ out' = (IF ByIndex THEN out ELSE out \o ids[b]) /\ UNCHANGED fail
  /\ UNCHANGED <<queue, running, finished, order, ids, next, bad>>
RECURSIVE Cat(_)
Cat(b) == IF b > NB THEN <<>> ELSE (IF b \in bad THEN <<>> ELSE ids[b]) \o Cat(b + 1)
Finish == /\ got = B /\ out = <<>> /\ ByIndex /\ bad # B
          /\ out' = Cat(1)
          /\ IOEnv.EMIT = "1" =>
               PrintT("@@O " \o ToJson([nb |-> NB, w |-> W, size |-> Size, last |-> Last,
                                        order |-> order, bad |-> bad]))
          /\ UNCHANGED <<queue, running, finished, got, order, ids, next, proc, fail, bad>>
Next == Take \/ (\E b \in B : Insert(b) \/ Collect(b)) \/ Finish
(* the ids returned line up with the successful items, whatever the schedule *)
Done == got = B /\ (out # <<>> \/ bad = B)
InOrder == Done => out = Cat(1)
Accounted == (got = B => proc + fail = Total) /\ proc + fail <= Total
Once == \A b, c \in B : b # c => \A i \in 1..Len(ids[b]) : \A j \in 1..Len(ids[c]) : ids[b][i] # ids[c][j]
=============================================================================
