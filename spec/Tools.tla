------------------------------- MODULE Tools -------------------------------
(* Profiler, analyzers, decorators, progress and resource monitors.         *)
(* State: prof  name -> sequence of measured times (microseconds)            *)
(*        mem   name -> sequence of measured changes of memory (1/100 MB)     *)
(*        hist  sequence of queries [time, n]                                *)
(*        on, samples   monitor running, number of its samples               *)
(*        done, total   progress                                             *)
(* Numbers in 1/10000, cosines as their signed squares.                       *)
EXTENDS Similarity
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
MinMax(q) == <<Min(SeqSet(q)), Max(SeqSet(q))>>
Flat(R) == [i \in 1..(Len(R) * Len(R[1])) |-> R[1 + ((i - 1) \div Len(R[1]))][1 + ((i - 1) % Len(R[1]))]]
Col(R, j) == [i \in 1..Len(R) |-> R[i][j]]
Mean(q) == <<Sum(q), Len(q)>>
Var(q) == <<Len(q) * N2(q) - Sum(q) * Sum(q), Len(q) * Len(q)>>
Scaled(f, k) == <<f[1], f[2] * k>>
(* numbers are recorded in 1/10000 *)
Dec(x, f) == Abs(x * f[2] - 10000 * f[1]) <= 2 * f[2]
Near(x, y, t) == Abs(x - y) <= t
Start == [prof |-> <<>>, mem |-> <<>>, hist |-> <<>>, on |-> FALSE, samples |-> 0, done |-> 0, total |-> 0]
Times(st, n) == IF n \in DOMAIN st.prof THEN st.prof[n] ELSE <<>>
Mems(st, n) == IF n \in DOMAIN st.mem THEN st.mem[n] ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* a summary [n, min, max, avg, total] of times q *)
SummaryOK(s, q, y) ==
                   /\ s.mmin = MinMax(y)[1] /\ s.mmax = MinMax(y)[2] /\ s.mtotal = Sum(y) /\ Near(s.mavg * Len(y), Sum(y), Len(y))
                   /\ s.n = Len(q) /\ Near(s.min, MinMax(q)[1], 2) /\ Near(s.max, MinMax(q)[2], 2)
                   /\ Near(s.total, Sum(q), 2 * Len(q)) /\ Near(s.avg * Len(q), Sum(q), 3 * Len(q))

(* the printed summary: times in steps of 100 microseconds                  *)
ShownOK(s, q, y) == /\ s.n = Len(q) /\ Near(s.min, MinMax(q)[1], 60) /\ Near(s.max, MinMax(q)[2], 60)
                    /\ Near(s.avg * Len(q), Sum(q), 60 * Len(q))
                    /\ s.mmin = MinMax(y)[1] /\ s.mmax = MinMax(y)[2] /\ Near(s.mavg * Len(y), Sum(y), Len(y))
(* what a debugging, timing or memory decorator prints about a call         *)
SaidOK(e) ==
  /\ e.mem = e.wantmem
  /\ ~e.raised => e.named_it
  /\ e.debug => /\ e.named_it /\ e.told = <<e.np, e.nk>>
                /\ ~e.raised => e.good /\ ~e.wrong
                /\ e.raised => ~e.good
                /\ e.raised /\ e.plain => e.wrong
                /\ e.array => e.sized
(* ---------------------------------------------------------------- vectors *)
Plain(R) == \A i \in 1..Len(R) : SeqSet(R[i]) \subseteq -1000..1000
NaN == 5001
Inf == {5002, 5003}
Count(R, S) == Sum([i \in 1..Len(R) |-> Cardinality({j \in 1..Len(R[i]) : R[i][j] \in S})])
Constant(r) == \A j \in 1..Len(r) : r[j] # NaN /\ r[j] = r[1]
Constants_(R) == Cardinality({i \in 1..Len(R) : Constant(R[i])})
Zeros(R) == Cardinality({i \in 1..Len(R) : SeqSet(R[i]) = {0}})
QualityOK(R, e) ==
  /\ e.nan = Count(R, {NaN}) /\ e.inf = Count(R, Inf) /\ e.const = Constants_(R) /\ e.zero = Zeros(R)
  /\ LET n == Len(R)  N == n * Len(R[1])
         lost == 5 * n * (e.nan + e.inf) + 3 * N * e.const + 2 * N * e.zero    \* in 1 / (10 n N)
     IN Dec(e.score, <<IF lost > 10 * n * N THEN 0 ELSE 10 * n * N - lost, 10 * n * N>>)
(* the printed analysis of R shows these counts, the score in 1/100         *)
PrintOK(R, e) ==
  /\ e.count = Len(R) /\ e.dim = Len(R[1])
  /\ e.nan = Count(R, {NaN}) /\ e.inf = Count(R, Inf) /\ e.const = Constants_(R) /\ e.zero = Zeros(R)
  /\ LET n == Len(R)  N == n * Len(R[1])
         lost == 5 * n * (e.nan + e.inf) + 3 * N * e.const + 2 * N * e.zero
         want == <<IF lost > 10 * n * N THEN 0 ELSE 10 * n * N - lost, 10 * n * N>>
     IN Abs(e.score * want[2] - 10000 * want[1]) <= 55 * want[2]
Pairs(R) == {<<i, j>> \in (1..Len(R)) \X (1..Len(R)) : i < j}
CosOf(R, p) == Cos2(R[p[1]], R[p[2]])
Above(f, num, den) == f[1] * den > f[2] * num
AtLeast(f, num, den) == f[1] * den >= f[2] * num
AnalysisOK(R, e) ==
  LET q == Flat(R)  n == Len(R)  d == Len(R[1])
      rows == [i \in 1..n |-> N2(R[i])]
      colsums == [j \in 1..d |-> Sum(Col(R, j))]
      P == Pairs(R)
      Ge(p, r) == CosOf(R, p)[1] * CosOf(R, r)[2] >= CosOf(R, r)[1] * CosOf(R, p)[2]
  IN /\ e.count = n /\ e.dim = d
     /\ Dec(e.mean, Mean(q)) /\ Dec(e.var, Var(q)) /\ e.min = MinMax(q)[1] /\ e.max = MinMax(q)[2]
     /\ Dec(e.sparsity, <<Cardinality({i \in 1..Len(q) : q[i] = 0}), Len(q)>>)
     /\ Dec(e.mm, Mean(q)) /\ Dec(e.vm, Scaled(Var(colsums), n * n))
     /\ n = 1 => Dec(e.ms, <<0, 1>>) /\ Dec(e.vs, <<0, 1>>)
     /\ n = 2 => LET t == [j \in 1..d |-> Abs(R[1][j] - R[2][j])] IN
                 Dec(e.ms, Scaled(Mean(t), 2)) /\ Dec(e.vs, Scaled(Var(t), 4))
     /\ e.nmin = MinMax(rows)[1] /\ e.nmax = MinMax(rows)[2]
     /\ (\A i \in 1..n : e.roots[i] * e.roots[i] = rows[i]) => Dec(e.nmean, Mean(e.roots)) /\ Dec(e.nvar, Var(e.roots))
     /\ P # {} => /\ \E p \in P : (\A r \in P : Ge(r, p)) /\ Dec(e.smin, CosOf(R, p))
                  /\ \E p \in P : (\A r \in P : Ge(p, r)) /\ Dec(e.smax, CosOf(R, p))
                  /\ Cardinality(P) = 1 => Near(e.smean, e.smin, 2) /\ Dec(e.svar, <<0, 1>>)
                  (* mean cosine in 1/1000, the cosines given as e.cos *)
                  /\ e.cosok /\ Near(e.smean1000 * Cardinality(P), Sum(e.cos), 2 * Cardinality(P))
     /\ Cardinality({p \in P : Above(CosOf(R, p), 361, 400)}) <= e.high
     /\ e.high <= Cardinality({p \in P : AtLeast(CosOf(R, p), 361, 400)})
     /\ Cardinality({p \in P : Above(CosOf(R, p), -1, 4)}) <= Cardinality(P) - e.low
     /\ Cardinality(P) - e.low <= Cardinality({p \in P : AtLeast(CosOf(R, p), -1, 4)})

(* ---------------------------------------------------------------- queries *)
QueryOK(e) ==
  /\ e.norm = N2(e.q) /\ Dec(e.mean, Mean(e.q)) /\ Dec(e.var, Var(e.q))
  /\ e.count = Len(e.ds) /\ e.expected = e.k /\ e.same_time
  /\ IF Len(e.ds) = 0 THEN ~e.has
     ELSE e.has /\ Dec(e.dmean, Mean(e.ds)) /\ Dec(e.dvar, Var(e.ds)) /\ e.dmin = MinMax(e.ds)[1] /\ e.dmax = MinMax(e.ds)[2]
PatternsOK(h, e) ==
  LET ts == [i \in 1..Len(h) |-> h[i].t]  ns == [i \in 1..Len(h) |-> h[i].n] IN
  IF h = <<>> THEN e.none
  ELSE /\ ~e.none /\ e.total = Len(h)
       /\ Dec(e.tmean, Mean(ts)) /\ Dec(e.tvar, Var(ts)) /\ e.tmin = MinMax(ts)[1] /\ e.tmax = MinMax(ts)[2]
       /\ Dec(e.nmean, Mean(ns)) /\ Dec(e.nvar, Var(ns)) /\ e.nmin = MinMax(ns)[1] /\ e.nmax = MinMax(ns)[2]

(* ---------------------------------------------------------------- indices *)
(* live: the vectors in the index; tables > 0: LSH; seen: its vectors show  *)
InspectOK(e) ==
  /\ e.stat = Len(e.live) /\ e.ini /\ e.kind_ok
  /\ e.seen => /\ e.n = Len(e.live)
               /\ Len(e.live) > 0 => e.dim = Len(e.live[1]) /\ Dec(e.mean, Mean(Flat(e.live))) /\ Dec(e.var, Var(Flat(e.live)))
  /\ e.tables > 0 => e.tcount = e.tables /\ e.entries = e.tables * Len(e.live)
                     /\ Near(e.avg1000 * Max({e.buckets, 1}), 1000 * e.entries, Max({e.buckets, 1}))
                     /\ (e.entries > 0 => e.buckets > 0)
PerfOK(e) ==
  /\ e.stat = e.n /\ e.rate_ok /\ e.stored = e.n /\ e.numbered

(* ------------------------------------------------- recorded calls: faults *)
Good(st, e) ==
  CASE e.op = "measured" -> e.r = e.want /\ e.n = Len(Times(st, e.name)) + 1 /\ e.lo <= e.t /\ e.t <= e.hi /\ e.others /\ e.mem = e.wantmem
    [] e.op = "summary" -> /\ e.r = "ok" /\ DOMAIN e.s = DOMAIN st.prof
                           /\ \A n \in DOMAIN e.s : SummaryOK(e.s[n], st.prof[n], st.mem[n])
    [] e.op = "shown" -> /\ e.r = "ok" /\ DOMAIN e.s = DOMAIN st.prof
                         /\ \A n \in DOMAIN e.s : ShownOK(e.s[n], st.prof[n], st.mem[n])
    [] e.op = "report" -> /\ e.r = "ok" /\ DOMAIN e.s = DOMAIN st.prof /\ \A n \in DOMAIN e.s : SummaryOK(e.s[n], st.prof[n], st.mem[n])
                          /\ DOMAIN e.raw = DOMAIN st.prof /\ \A n \in DOMAIN e.raw : e.raw[n] = st.prof[n]
    [] e.op = "analyze" -> e.r = "ok" /\ IF e.rows = <<>> THEN e.empty
                                         ELSE ~e.empty /\ QualityOK(e.rows, e) /\ e.kept /\ (Plain(e.rows) => AnalysisOK(e.rows, e))
    [] e.op = "query" -> e.r = "ok" /\ QueryOK(e)
    [] e.op = "patterns" -> e.r = "ok" /\ PatternsOK(st.hist, e)
    [] e.op = "call" -> e.r = e.want /\ e.calls = 1 /\ e.args /\ e.named /\ SaidOK(e)
    [] e.op = "inspect" -> e.r = "ok" /\ InspectOK(e)
    [] e.op = "perf" -> e.r = "ok" /\ PerfOK(e)
    [] e.op = "printed" -> e.r = "ok" /\ e.some /\ (e.rows # <<>> => PrintOK(e.rows, e))
    [] e.op = "track" -> e.r = "ok"
    [] e.op = "advance" -> e.r = "ok" /\ e.current = st.done + e.by
    [] e.op = "finish" -> e.r = "ok" /\ e.current = st.total /\ e.shown = <<st.total, st.total>> /\ e.percent = 1000
    [] e.op = "start" -> e.r = "ok" /\ e.threads = 1 /\ e.samples >= st.samples
    [] e.op = "stop" -> e.r = "ok" /\ e.threads = 0 /\ e.frozen /\ (st.on => e.samples > st.samples) /\ (~st.on => e.samples = st.samples)
    [] e.op = "usage" -> e.r = "ok" /\ IF st.samples = 0 /\ e.samples = 0 THEN ~e.some
                                       ELSE e.some /\ e.ordered /\ (~st.on => e.samples = st.samples)
    [] OTHER -> FALSE
After(st, e) ==
  CASE e.op = "measured" -> [st EXCEPT !.prof = Put(@, e.name, Append(Times(st, e.name), e.t)),
                                     !.mem = Put(@, e.name, Append(Mems(st, e.name), e.mem))]
    [] e.op = "query" -> [st EXCEPT !.hist = Append(@, [t |-> e.t, n |-> Len(e.ds)])]
    [] e.op = "track" -> [st EXCEPT !.done = 0, !.total = e.total]
    [] e.op = "advance" -> [st EXCEPT !.done = @ + e.by]
    [] e.op = "finish" -> [st EXCEPT !.done = st.total]
    [] e.op = "start" -> [st EXCEPT !.on = TRUE]
    [] e.op = "stop" -> [st EXCEPT !.on = FALSE, !.samples = e.samples]
    [] OTHER -> st
=============================================================================
