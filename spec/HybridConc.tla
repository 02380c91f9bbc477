----------------------------- MODULE HybridConc -----------------------------
(* The hybrid backend under threads: every operation is a sequence of steps *)
(* on the cache and on the disk, interleaved with the steps of the other    *)
(* threads.  UseLock says whether an operation holds the backend's lock     *)
(* from its first to its last step (the code does); with UseLock = FALSE    *)
(* the invariants fail, which the check uses to see that they can.          *)
(*                                                                          *)
(* Linearizability: the ghost abs is the sequential map.  The operation     *)
(* takes effect on abs in its last step, where its result must be the one   *)
(* the sequential operation gives.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Ids, Vals, Limit, MaxOps, UseLock

VARIABLES mem,     \* cache: sequence of <<id, value>>, oldest first
          disk,    \* id -> value, 0 = absent
          lock,    \* 0 or the thread holding it
          th,      \* per thread: pc, op, id, v (argument), got (what it read)
          left,    \* operations each thread may still start
          abs, ok
vars == <<mem, disk, lock, th, left, abs, ok>>
Idle == [pc |-> "idle", op |-> "", id |-> CHOOSE i \in Ids : TRUE, v |-> 0, got |-> 0]
Init == /\ mem = <<>> /\ disk = [i \in Ids |-> 0] /\ lock = 0
        /\ th = [t \in Threads |-> Idle] /\ left = [t \in Threads |-> MaxOps]
        /\ abs = [i \in Ids |-> 0] /\ ok = TRUE

InMem(i) == \E n \in 1..Len(mem) : mem[n][1] = i
MemVal(i) == mem[CHOOSE n \in 1..Len(mem) : mem[n][1] = i][2]
Without(q, i) == SelectSeq(q, LAMBDA p : p[1] # i)
(* dict assignment: keeps the position of a key that is there *)
Assign(q, i, v) == IF \E n \in 1..Len(q) : q[n][1] = i
                   THEN [n \in 1..Len(q) |-> IF q[n][1] = i THEN <<i, v>> ELSE q[n]]
                   ELSE Append(q, <<i, v>>)

Go(t, pc, got) == th' = [th EXCEPT ![t].pc = pc, ![t].got = got]
Start(t) ==
  /\ th[t].pc = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E op \in {"store", "update", "delete", "get"}, i \in Ids, v \in Vals :
        /\ op \in {"delete", "get"} => v = CHOOSE w \in Vals : TRUE
        /\ th' = [th EXCEPT ![t] = [pc |-> "acquire", op |-> op, id |-> i, v |-> v, got |-> 0]]
  /\ UNCHANGED <<mem, disk, lock, abs, ok>>
Acquire(t) ==
  /\ th[t].pc = "acquire"
  /\ IF UseLock THEN lock = 0 /\ lock' = t ELSE UNCHANGED lock
  /\ Go(t, IF th[t].op \in {"store", "update"} THEN "disk" ELSE "mem", 0)
  /\ UNCHANGED <<mem, disk, left, abs, ok>>

(* store: disk, then count the cache, make room, then the cache *)
(* got: 1 = took effect, 0 = did not *)
DiskW(t) ==
  /\ th[t].pc = "disk" /\ th[t].op \in {"store", "update"}
  /\ IF th[t].op = "update" /\ disk[th[t].id] = 0
     THEN disk' = disk /\ Go(t, "finish", 0)
     ELSE /\ disk' = [disk EXCEPT ![th[t].id] = th[t].v]
          /\ Go(t, IF th[t].op = "update" THEN "refresh" ELSE "room", 1)
  /\ UNCHANGED <<mem, lock, left, abs, ok>>
Refresh(t) ==
  /\ th[t].pc = "refresh"
  /\ mem' = IF InMem(th[t].id) THEN Assign(mem, th[t].id, th[t].v) ELSE mem
  /\ Go(t, "finish", 1)
  /\ UNCHANGED <<disk, lock, left, abs, ok>>
Room(t) ==
  /\ th[t].pc = "room"
  /\ IF Len(mem) < Limit THEN mem' = mem /\ Go(t, "put", th[t].got)
     ELSE IF Limit > 0 THEN mem' = Tail(mem) /\ Go(t, "put", th[t].got)
     ELSE mem' = mem /\ Go(t, "finish", th[t].got)
  /\ UNCHANGED <<disk, lock, left, abs, ok>>
PutMem(t) ==
  /\ th[t].pc = "put"
  /\ mem' = Assign(mem, th[t].id, IF th[t].op = "store" THEN th[t].v ELSE th[t].got)
  /\ Go(t, "finish", th[t].got)
  /\ UNCHANGED <<disk, lock, left, abs, ok>>
(* get and delete: cache first *)
Mem(t) ==
  /\ th[t].pc = "mem"
  /\ IF th[t].op = "get"
     THEN /\ mem' = mem
          /\ IF InMem(th[t].id) THEN Go(t, "finish", MemVal(th[t].id)) ELSE Go(t, "disk", 0)
     ELSE /\ Go(t, "disk", IF InMem(th[t].id) THEN 1 ELSE 0)
          /\ mem' = Without(mem, th[t].id)
  /\ UNCHANGED <<disk, lock, left, abs, ok>>
DiskR(t) ==
  /\ th[t].pc = "disk" /\ th[t].op = "get"
  /\ Go(t, IF disk[th[t].id] = 0 THEN "finish" ELSE "room", disk[th[t].id])
  /\ UNCHANGED <<mem, disk, lock, left, abs, ok>>
DiskD(t) ==
  /\ th[t].pc = "disk" /\ th[t].op = "delete"
  /\ Go(t, "finish", IF disk[th[t].id] # 0 THEN 1 ELSE th[t].got)
  /\ disk' = [disk EXCEPT ![th[t].id] = 0]
  /\ UNCHANGED <<mem, lock, left, abs, ok>>
Finish(t) ==
  /\ th[t].pc = "finish"
  /\ LET e == th[t]  old == abs[e.id]
         want == CASE e.op = "store" -> 1 [] e.op = "get" -> old
                   [] OTHER -> IF old # 0 THEN 1 ELSE 0
     IN /\ ok' = (ok /\ e.got = want)
        /\ abs' = CASE e.op = "store" -> [abs EXCEPT ![e.id] = e.v]
                    [] e.op = "update" /\ old # 0 -> [abs EXCEPT ![e.id] = e.v]
                    [] e.op = "delete" -> [abs EXCEPT ![e.id] = 0]
                    [] OTHER -> abs
  /\ lock' = IF UseLock THEN 0 ELSE lock
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ UNCHANGED <<mem, disk, left>>
Next == \E t \in Threads : Start(t) \/ Acquire(t) \/ DiskW(t) \/ Refresh(t) \/ Room(t) \/ PutMem(t)
                           \/ Mem(t) \/ DiskR(t) \/ DiskD(t) \/ Finish(t)

Linearizable == ok
Bound == Len(mem) <= Limit
Unique == \A n, m \in 1..Len(mem) : mem[n][1] = mem[m][1] => n = m
Quiet == \A t \in Threads : th[t].pc \in {"idle", "acquire"}
Coherent == Quiet => disk = abs /\ \A n \in 1..Len(mem) : mem[n][2] = disk[mem[n][1]]
NoDeadlock == (\A t \in Threads : th[t].pc # "idle") => ENABLED Next
=============================================================================
