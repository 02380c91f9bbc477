------------------------------- MODULE Stats -------------------------------
(* What the components report about themselves.  s is what a history amounts *)
(* to: live, the entries [vb: bytes of the vector, mb: bytes of the metadata *)
(* as text] by id; n, counters by name; ini, whether the component is open.  *)
(* An event is a call (with its outcome) or "obs", the reported statistics;  *)
(* e.files are the sizes of the files below the data directory.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
RECURSIVE SumOver(_, _)
SumOver(live, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : TRUE IN
                    live[i].vb + live[i].mb + SumOver(live, D \ {i})
Bytes(live) == SumOver(live, DOMAIN live)
None == [i \in {} |-> 0]
Zero == [docs |-> 0, before |-> 0, after |-> 0, made |-> 0, hits |-> 0, saves |-> 0, loads |-> 0]
Fresh(kind) == [kind |-> kind, ini |-> FALSE, live |-> None, n |-> Zero, known |-> {}, procs |-> <<>>, train |-> <<>>, log |-> [ops |-> 0, last |-> 0]]
Put(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Add(s, c, k) == [s EXCEPT !.n[c] = @ + k]
If(b, name) == IF b THEN {} ELSE {name}
Count(s) == Cardinality(DOMAIN s.live)

(* the log of an incremental manager: a saved state is a checkpoint before   *)
(* its own entry, and every so many entries there is one, too               *)
Logged(log, e) == LET was == IF e.state THEN log.ops ELSE log.last IN
  [ops |-> log.ops + 1, last |-> IF log.ops + 1 - was >= e.every THEN log.ops + 1 ELSE was]
(* ------------------------------------------------------------ what happens *)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Embed(_, _, _)
(* texts given one by one: a text in the cache is a hit, others are embedded *)
Embed(s, q, cache) ==
  IF q = <<>> THEN s ELSE
  LET t == Head(q) IN
  Embed(IF t = "blank" THEN s
        ELSE IF cache /\ t \in s.known THEN Add(s, "hits", 1)
        ELSE [Add(Add(s, "docs", 1), "made", 1) EXCEPT !.known = IF cache THEN @ \cup {t} ELSE @], Tail(q), cache)
After(s, e) ==
  CASE e.op = "new" -> [Fresh(s.kind) EXCEPT !.live = IF s.kind \in {"disk", "hybrid"} THEN s.live ELSE None, !.log = s.log]
    [] e.op = "init" /\ e.r = "ok" -> [s EXCEPT !.ini = TRUE, !.live = IF s.kind = "memory" THEN None ELSE @, !.procs = e.procs]
    [] e.op = "close" /\ e.r = "ok" -> [s EXCEPT !.ini = FALSE, !.train = <<>>, !.live = IF s.kind \in {"disk", "hybrid"} THEN @ ELSE None]
    [] e.op \in {"store", "update"} /\ e.r = "true" -> [s EXCEPT !.live = Put(@, e.id, [vb |-> e.vb, mb |-> e.mb])]
    [] e.op = "delete" /\ e.r = "true" -> [s EXCEPT !.live = Drop(@, e.id)]
    [] e.op = "insert" /\ e.r = "ok" -> [s EXCEPT !.live = [j \in DOMAIN @ \cup SeqSet(e.ids) |-> [vb |-> 0, mb |-> 0]]]
    [] e.op = "save" /\ e.r = "ok" -> [Add(s, "saves", 1) EXCEPT !.log = Logged(@, e)]
    [] e.op = "load" /\ e.r = "ok" /\ e.found -> Add(s, "loads", 1)
    [] e.op = "clean" /\ e.r = "ok" -> Add(Add(Add(s, "docs", 1), "before", e.before), "after", e.after)
    [] e.op = "chunk" /\ e.r = "ok" -> Add(Add(s, "before", e.before), "made", e.made)
    [] e.op = "embed" /\ e.r = "ok" -> Embed(s, e.texts, e.cache)
    [] e.op = "batch" /\ e.r = "ok" ->
         IF e.whole THEN Add(Add(s, "docs", Len(e.texts)), "made", Len(e.texts)) ELSE Embed(s, e.texts, e.cache)
    [] e.op = "train" /\ e.r = "ok" -> [s EXCEPT !.train = <<e.shape, e.lo, e.hi>>]
    [] e.op = "forget" -> [s EXCEPT !.known = {}, !.n.hits = 0]
    [] OTHER -> s

(* ------------------------------------------------------------ what is said *)
Usage(g, e) == If(g.usage = Total(e.files) /\ g.mb = g.usage, "disk usage")
Memory(live, g) == If(g.count = Cardinality(DOMAIN live), "vector count") \cup If(g.bytes = Bytes(live) /\ g.mb = g.bytes, "memory usage")
(* the memory of a hybrid store holds some of the entries                    *)
Part(live, g) == IF \E D \in SUBSET DOMAIN live : Cardinality(D) = g.count /\ SumOver(live, D) = g.bytes /\ g.mb = g.bytes
                 THEN {} ELSE {"memory usage"}
RECURSIVE SumVals(_, _)
SumVals(f, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : TRUE IN f[i] + SumVals(f, D \ {i})
Said(s, e) ==
  LET g == e.got IN
  CASE s.kind = "memory" -> Memory(s.live, g)
    [] s.kind = "disk" -> If(g.count = Count(s), "vector count") \cup Usage(g, e)
    [] s.kind = "hybrid" -> If(g.limit = e.limit /\ g.count = Count(s), "vector count") \cup Usage(g, e)
                            \cup Part(s.live, g.memory) \cup If(g.memory.count <= e.limit, "memory limit")
    [] s.kind = "tensor" -> If(g.saves = s.n.saves /\ g.loads = s.n.loads, "saves and loads")
                            \cup If(g.nfiles = Len(e.files), "number of files") \cup Usage(g, e)
    [] s.kind = "incremental" -> If(g.checkpoints = e.checkpoints, "checkpoints") \cup Usage(g, e)
                                 \cup If(g.ops = s.log.ops /\ g.logged = s.log.ops, "operations") \cup If(g.last = s.log.last, "last checkpoint")
    [] s.kind = "cleaning" -> If(g.docs = s.n.docs /\ g.before = s.n.before /\ g.after = s.n.after, "counts")
                              \cup If(g.removed = s.n.before - s.n.after, "characters removed")
                              \cup If(g.product = s.n.after, "compression ratio")
    [] s.kind = "chunking" -> If(g.made = s.n.made /\ g.before = s.n.before, "counts")
                              \cup If(g.product = s.n.before, "average chunk size")
    [] s.kind = "embedding" -> If(g.docs = s.n.docs /\ g.made = s.n.made, "counts") \cup If(g.hits = s.n.hits, "cache hits")
                               \cup If(g.size = Cardinality(s.known), "cache size") \cup If(g.product = s.n.hits, "cache hit rate")
    [] s.kind \in {"flat", "hnsw", "ivf", "lsh", "annoy"} ->
         If(g.count = Count(s), "vector count")
         \cup (IF s.kind \in {"flat", "ivf"} THEN If(g.cached = Count(s), "cache size") ELSE {})
         \cup (IF s.kind = "ivf" /\ g.trained THEN If(Total(g.clusters) = Count(s), "cluster sizes") ELSE {})
         \cup (IF s.kind = "lsh" THEN If(g.entries = g.tables * Count(s) /\ g.largest <= Count(s), "bucket sizes") ELSE {})
         \cup (IF s.kind \in {"lsh", "annoy"} THEN If(g.capacity >= Count(s), "capacity") ELSE {})
    [] s.kind = "scalar" ->       \* train: shape, range of the least and of the largest values by dimension
         IF s.train = <<>> THEN If(~g.trained, "trained")
         ELSE If(g.trained /\ g.dim = s.train[1][2], "dimensions") \cup If(g.lo = s.train[2] /\ g.hi = s.train[3], "ranges")
              \cup If(g.product = 32, "compression ratio")
    [] s.kind = "product" ->
         IF s.train = <<>> THEN If(~g.trained, "trained")
         ELSE LET k == IF e.k < s.train[1][1] THEN e.k ELSE s.train[1][1] IN
              If(g.trained /\ g.dim = s.train[1][2] /\ g.sub * e.m = g.dim, "dimensions")
              \cup If(g.k = k /\ g.shape = <<e.m, k, g.sub>>, "codewords")
              \cup If(g.codes = (IF k > 1 THEN k ELSE 2), "bits") \cup If(g.total, "total bits") \cup If(g.product = 32, "compression ratio")
    [] s.kind = "saq" -> If(g.trained = (s.train # <<>>), "trained") \cup (IF s.train = <<>> THEN {} ELSE If(g.dim = s.train[1][2], "dimensions"))
    [] s.kind = "pipeline" ->
         IF ~s.ini THEN If(g.closed, "initialized")
         ELSE If(~g.closed /\ g.procs = s.procs, "processors")
              \cup (IF "cleaning" \in SeqSet(s.procs) THEN If(g.docs = s.n.docs, "documents") ELSE {})
              \cup (IF "chunking" \in SeqSet(s.procs) THEN If(g.made = s.n.made, "chunks") ELSE {})
              \cup If(g.formats, "formats")
    [] OTHER -> {"unknown"}
Closed == {"memory", "disk", "hybrid", "tensor", "incremental", "flat", "hnsw", "ivf", "scalar", "product", "saq"}
Faults(s, e) ==
  IF e.op # "obs" THEN {}
  ELSE IF e.r = "err" THEN {"error"}
  ELSE IF ~s.ini /\ s.kind \in Closed THEN If(e.r = "closed", "open")
  ELSE IF e.r = "closed" THEN {"closed"}
  ELSE If(e.same, "looking changes the statistics") \cup If(s.kind = "pipeline" \/ e.ini = s.ini, "initialized") \cup If(e.config, "configuration")
       \cup Said(s, e)
=============================================================================
