---------------------------- MODULE StorageImpl ----------------------------
(* Implementation-shaped model of the disk and hybrid backends.             *)
(*                                                                          *)
(* Disk: every record is two files (vector, metadata), written aside and    *)
(* renamed one after the other - metadata first, vector last, because the   *)
(* vector file is what makes a record visible.  Delete unlinks the vector   *)
(* first.  A crash or an I/O error can happen between any two steps.        *)
(* Hybrid: a FIFO cache of at most Limit records in front of the disk.      *)
(*                                                                          *)
(* Checked: the abstract map (module Storage) is what a reader sees when no *)
(* operation is running; after a crash, a state allowed by Storage!Torn;    *)
(* the cache never exceeds its bound and never holds anything but the disk  *)
(* record.  With Atomic = TRUE the operations are single steps, and every   *)
(* transition is printed (EMIT=1): these are the test behaviours that the   *)
(* harness replays on the real backends.                                    *)
EXTENDS Storage, Json, IOUtils
CONSTANTS Ids, Vals, Metas, Limit, Atomic, Kind
VARIABLES vec, met,      \* files: id -> value (vector / metadata file)
          cache,         \* sequence of <<id, rec>>: oldest first
          open,
          abs,           \* the abstract state
          pend           \* operation in progress: [op |-> "none"] or steps left
vars == <<vec, met, cache, open, abs, pend>>
NoFiles == [x \in {} |-> 0]
None == [op |-> "none"]

PutF(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
DelF(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
DiskRec(id) == <<vec[id], IF id \in DOMAIN met THEN met[id] ELSE 0>>
ReadDisk == [id \in DOMAIN vec |-> DiskRec(id)]
Cached(id) == \E i \in 1..Len(cache) : cache[i][1] = id
CacheRec(id) == (CHOOSE p \in SeqSet(cache) : p[1] = id)[2]
CacheDel(c, id) == SelectSeq(c, LAMBDA p : p[1] # id)
(* store under a cached id while full evicts the oldest - maybe another one *)
CachePut(c, id, rec) ==
  IF Limit = 0 THEN c
  ELSE LET c2 == IF Len(c) < Limit THEN c ELSE Tail(c)
       IN IF \E i \in 1..Len(c2) : c2[i][1] = id
          THEN [i \in 1..Len(c2) |-> IF c2[i][1] = id THEN <<id, rec>> ELSE c2[i]]
          ELSE Append(c2, <<id, rec>>)
CacheUpd(c, id, rec) == [i \in 1..Len(c) |-> IF c[i][1] = id THEN <<id, rec>> ELSE c[i]]

Init == /\ vec = NoFiles /\ met = NoFiles /\ cache = <<>> /\ open = FALSE
        /\ abs = [open |-> FALSE, kv |-> Empty] /\ pend = None

St == [vec |-> vec, met |-> met, cache |-> cache, open |-> open]
Emit(op) == IF IOEnv.EMIT = "1" THEN PrintT("@@E " \o ToJson(<<St, op, St'>>)) ELSE TRUE

WriteDone(op) ==        \* effect on the files of a complete write / delete
  CASE op.op \in {"store", "update"} ->
         /\ vec' = PutF(vec, op.id, op.v)
         /\ met' = IF op.m = 0 THEN DelF(met, op.id) ELSE PutF(met, op.id, op.m)
    [] op.op = "delete" -> vec' = DelF(vec, op.id) /\ met' = DelF(met, op.id)

CacheDone(op) ==
  cache' = CASE Kind # "hybrid" -> cache
             [] op.op = "store" -> CachePut(cache, op.id, <<op.v, op.m>>)
             [] op.op = "update" -> CacheUpd(cache, op.id, <<op.v, op.m>>)
             [] op.op = "delete" -> CacheDel(cache, op.id)

Effective(op) == op.op = "store" \/ op.id \in DOMAIN vec
Ops == [op : {"store", "update"}, id : Ids, v : Vals, m : Metas]
       \cup [op : {"delete"}, id : Ids, v : {0}, m : {0}]

(* ---- atomic operations (used for generation) ---- *)
Do == \E op \in Ops :
  /\ Atomic /\ open
  /\ IF Effective(op) THEN WriteDone(op) /\ CacheDone(op) ELSE UNCHANGED <<vec, met, cache>>
  /\ abs' = [abs EXCEPT !.kv = Effect(abs, op)[2]]
  /\ UNCHANGED <<open, pend>>
  /\ Emit(op)
Get == \E id \in Ids :
  /\ open /\ pend = None
  /\ LET op == [op |-> "get", id |-> id, v |-> 0, m |-> 0] IN
     /\ cache' = IF Kind = "hybrid" /\ id \in DOMAIN vec /\ ~Cached(id)
                 THEN CachePut(cache, id, DiskRec(id)) ELSE cache
     /\ UNCHANGED <<vec, met, open, abs, pend>>
     /\ Emit(op)
Restart ==
  /\ open /\ pend = None
  /\ open' = FALSE /\ cache' = <<>> /\ abs' = [abs EXCEPT !.open = FALSE]
  /\ UNCHANGED <<vec, met, pend>>
  /\ Emit([op |-> "restart", id |-> "", v |-> 0, m |-> 0])
Open ==
  /\ ~open /\ open' = TRUE /\ cache' = <<>> /\ abs' = [abs EXCEPT !.open = TRUE]
  /\ UNCHANGED <<vec, met, pend>>
  /\ Emit([op |-> "open", id |-> "", v |-> 0, m |-> 0])

(* ---- the same operations in steps, with crashes and errors ---- *)
Begin == \E op \in Ops :
  /\ ~Atomic /\ open /\ pend = None
  /\ pend' = [op |-> op.op, arg |-> op, pc |-> 1]
  /\ UNCHANGED <<vec, met, cache, open, abs>>
StepMeta ==      \* first rename / unlink of a write
  /\ pend # None /\ pend.op \in {"store", "update"} /\ pend.pc = 1 /\ Effective(pend.arg)
  /\ met' = IF pend.arg.m = 0 THEN DelF(met, pend.arg.id) ELSE PutF(met, pend.arg.id, pend.arg.m)
  /\ pend' = [pend EXCEPT !.pc = 2]
  /\ UNCHANGED <<vec, cache, open, abs>>
StepVec ==
  /\ pend # None /\ pend.op \in {"store", "update"} /\ pend.pc = 2
  /\ vec' = PutF(vec, pend.arg.id, pend.arg.v)
  /\ pend' = [pend EXCEPT !.pc = 3]
  /\ UNCHANGED <<met, cache, open, abs>>
DelCache ==
  /\ pend # None /\ pend.op = "delete" /\ pend.pc = 1
  /\ cache' = IF Kind = "hybrid" THEN CacheDel(cache, pend.arg.id) ELSE cache
  /\ pend' = [pend EXCEPT !.pc = 2]
  /\ UNCHANGED <<vec, met, open, abs>>
DelVec ==
  /\ pend # None /\ pend.op = "delete" /\ pend.pc = 2
  /\ vec' = DelF(vec, pend.arg.id) /\ pend' = [pend EXCEPT !.pc = 3]
  /\ UNCHANGED <<met, cache, open, abs>>
DelMeta ==
  /\ pend # None /\ pend.op = "delete" /\ pend.pc = 3
  /\ met' = DelF(met, pend.arg.id) /\ pend' = [pend EXCEPT !.pc = 4]
  /\ UNCHANGED <<vec, cache, open, abs>>
End ==           \* reply to the caller; the cache follows the disk
  /\ pend # None
  /\ \/ pend.op \in {"store", "update"} /\ pend.pc = 3
     \/ pend.op = "update" /\ pend.pc = 1 /\ ~Effective(pend.arg)
     \/ pend.op = "delete" /\ pend.pc = 4
  /\ IF pend.op = "delete" \/ pend.pc = 1 THEN cache' = cache ELSE CacheDone(pend.arg)
  /\ abs' = [abs EXCEPT !.kv = Effect(abs, pend.arg)[2]]
  /\ pend' = None
  /\ UNCHANGED <<vec, met, open>>
Crash ==         \* or an I/O error, after which the store is reopened
  /\ pend # None
  /\ open' = FALSE /\ cache' = <<>> /\ pend' = None
  /\ Assert(ReadDisk \in Torn(abs, pend.arg) \cup {Effect(abs, pend.arg)[2]},
            <<"torn record", ReadDisk, abs, pend>>)
  /\ abs' = [open |-> FALSE, kv |-> ReadDisk]
  /\ UNCHANGED <<vec, met>>

Next == Do \/ Get \/ Restart \/ Open \/ Begin \/ StepMeta \/ StepVec
        \/ DelCache \/ DelVec \/ DelMeta \/ End \/ Crash

Quiescent == pend = None => ReadDisk = abs.kv
CacheBound == Len(cache) <= Limit
CacheClean == pend = None => \A i \in 1..Len(cache) :
                cache[i][1] \in DOMAIN vec /\ cache[i][2] = DiskRec(cache[i][1])
CacheUnique == \A i, j \in 1..Len(cache) : i # j => cache[i][1] # cache[j][1]
Served == pend = None => \A id \in Ids :    \* what retrieve returns
            (IF Cached(id) THEN CacheRec(id) ELSE IF id \in DOMAIN vec THEN DiskRec(id) ELSE <<>>)
            = (IF id \in DOMAIN abs.kv THEN abs.kv[id] ELSE <<>>)
=============================================================================
