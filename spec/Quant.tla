------------------------------- MODULE Quant -------------------------------
(* Abstract vector quantizers (scalar, product, SAQ).                       *)
(*                                                                          *)
(* All vectors are integer vectors (the harness multiplies them by a power  *)
(* of two before it hands them to the code, and divides what comes back).   *)
(* A real number y that comes back is <<floor(y), micros>>.                 *)
(*                                                                          *)
(* c: kind "scalar" | "product" | "saq"; bits (scalar), m, k (product),     *)
(*    nseg, total, rescore (saq).                                           *)
(* State s: open; tr = <<>> (untrained) or <<training record>>:             *)
(*    vs the training vectors, book the codewords (product; 1/256),         *)
(*    segs/bits (saq); seen: <<vector, code, decoding>> triples since the   *)
(*    training.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, n)
Pow2(b) == IF b >= 30 THEN 1073741824 ELSE 2 ^ b
SeqSet(q) == {q[i] : i \in 1..Len(q)}

Init0 == [open |-> FALSE, tr |-> <<>>, seen |-> {}]
Trained(s) == s.tr # <<>>
Dim(s) == Len(s.tr[1].vs[1])
Micro(y) == y[1] * 1000000 + y[2]      \* only for small y
(* y - x in millionths, clamped to +-2000 units *)
Err(y, x) == LET d == y[1] - x IN
             IF d > 1000 THEN 1000000000 ELSE IF d < -1000 THEN -1000000000
             ELSE d * 1000000 + y[2]

(* ---------------------------------------------------------------- scalar *)
LoOf(vs, d) == LET S == {vs[i][d] : i \in 1..Len(vs)} IN CHOOSE a \in S : \A b \in S : a <= b
HiOf(vs, d) == LET S == {vs[i][d] : i \in 1..Len(vs)} IN CHOOSE a \in S : \A b \in S : a >= b
Slack(lo, hi, x) == 4 + (hi - lo) + Abs(lo) + Abs(hi)
ScalarOK(c, s, x, y, d) ==
  LET lo == LoOf(s.tr[1].vs, d)  hi == HiOf(s.tr[1].vs, d)
      half == ((hi - lo) * 1000000) \div (2 * (Pow2(c.bits) - 1)) + 1
      sl == Slack(lo, hi, x)
  IN IF lo = hi
     THEN x = lo => Abs(Err(y, lo)) <= sl
     ELSE IF x < lo THEN Abs(Err(y, lo)) <= sl
     ELSE IF x > hi THEN Abs(Err(y, hi)) <= sl
     ELSE Abs(Err(y, x)) <= half + sl

(* --------------------------------------------------------------- product *)
SubDim(c, s) == Dim(s) \div c.m
Sub(c, s, x, i) == SubSeq(x, (i - 1) * SubDim(c, s) + 1, i * SubDim(c, s))
D2(x, w) == LET f(j) == (256 * x[j] - w[j]) * (256 * x[j] - w[j]) IN SumTo(f, Len(x))
D1(x, w) == LET f(j) == Abs(256 * x[j] - w[j]) IN SumTo(f, Len(x))
(* w is a nearest codeword of x: codewords are known to half a unit only *)
NearestOK(x, w, book) ==
  \A v \in SeqSet(book) :
     D2(x, w) - D2(x, v) <= D1(x, w) + D1(x, v) + 2 * Len(x) + D2(x, w) \div 200000
Scaled(y) == 256 * y[1] + (256 * y[2] + 500000) \div 1000000
ProductOK(c, s, x, code, y) ==
  \A i \in 1..c.m :
     /\ code[i] >= 0 /\ code[i] < Len(s.tr[1].book[i])
     /\ LET w == s.tr[1].book[i][code[i] + 1] IN
        /\ NearestOK(Sub(c, s, x, i), w, s.tr[1].book[i])
        /\ \A j \in 1..SubDim(c, s) : Abs(Scaled(y[(i - 1) * SubDim(c, s) + j]) - w[j]) <= 1
(* A codebook with room for every training subvector contains them all.     *)
BookOK(c, vs, book) ==
  LET sd == Len(vs[1]) \div c.m
      subs(i) == {SubSeq(vs[n], (i - 1) * sd + 1, i * sd) : n \in 1..Len(vs)}
  IN
  /\ Len(book) = c.m
  /\ \A i \in 1..c.m :
       /\ Len(book[i]) = Min2(c.k, Len(vs))
       /\ (Len(vs) <= c.k /\ Len(vs) <= 12) =>
            \A x \in subs(i) : \E w \in SeqSet(book[i]) : \A j \in 1..sd : Abs(256 * x[j] - w[j]) <= 1

(* ------------------------------------------------------------------- saq *)
SegmentsOK(c, vs, segs, bits) ==
  LET dim == Len(vs[1])  n == Min2(c.nseg, dim) IN
  /\ Len(segs) = n /\ Len(bits) = n
  /\ segs[1][1] = 0 /\ segs[n][2] = dim
  /\ \A i \in 1..n : segs[i][1] < segs[i][2] /\ bits[i] >= 1
  /\ \A i \in 1..(n - 1) : segs[i][2] = segs[i + 1][1]
  /\ LET f(i) == bits[i] IN SumTo(f, n) = c.total
SaqCodeOK(s, code) ==
  /\ Len(code) = Len(s.tr[1].bits)
  /\ \A i \in 1..Len(code) : code[i] >= 0 /\ code[i] < Pow2(s.tr[1].bits[i])

(* ---------------------------------------------------------------- coding *)
CodeLen(c, s) == CASE c.kind = "scalar" -> Dim(s) [] c.kind = "product" -> c.m
                   [] c.kind = "saq" -> Len(s.tr[1].segs)
CodedOK(c, s, x, code, y) ==
  /\ Len(code) = CodeLen(c, s) /\ Len(y) = Dim(s)
  /\ CASE c.kind = "scalar" ->
            /\ \A d \in 1..Dim(s) : ScalarOK(c, s, x[d], y[d], d)
            /\ c.bits <= 30 => \A d \in 1..Dim(s) : code[d] >= 0 /\ code[d] < Pow2(c.bits)
       [] c.kind = "product" -> ProductOK(c, s, x, code, y)
       [] c.kind = "saq" -> SaqCodeOK(s, code)
  (* SAQ breaks ties between codewords by rounding, which depends on the batch *)
  /\ c.kind # "saq" => \A t \in s.seen : t[1] = x => t[2] = code /\ t[3] = y

(* --------------------------------------------------------------- distance *)
(* Queries are padded with zeros or cut to the trained dimension.           *)
Fit(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
DistOK(c, q, y, d) ==        \* d: 1/1000 for cosine, 1/256 for euclidean
  LET qq == Fit(q, Len(y)) IN
  IF c.kind = "product"
  THEN LET f(j) == (256 * qq[j] - Scaled(y[j])) * (256 * qq[j] - Scaled(y[j]))
           dd == SumTo(f, Len(y)) IN Abs(d * d - dd) <= 4 * Abs(d) + 16 + dd \div 500 /\ d >= 0
  ELSE LET z(j) == 16 * y[j][1] + (16 * y[j][2] + 500000) \div 1000000
           fd(j) == 16 * qq[j] * z(j)  fq(j) == 256 * qq[j] * qq[j]  fz(j) == z(j) * z(j)
           nn == ISqrt(SumTo(fq, Len(y))) * ISqrt(SumTo(fz, Len(y)))
           sm == SumTo(fd, Len(y))
       IN IF SumTo(fq, Len(y)) = 0 THEN d = 1000
          ELSE SumTo(fz, Len(y)) < 4000 \/ Abs((1000 - d) - (1000 * sm) \div nn) <= 40

(* ------------------------------------------------------- saq: rescoring *)
Dot(a, b) == LET f(i) == a[i] * b[i] IN SumTo(f, Len(a))
(* a strictly closer to q than b by cosine; norms are integers *)
CloserBy(q, a, na, b, nb) ==
  LET da == IF na = 0 THEN 0 ELSE Dot(q, a)  db == IF nb = 0 THEN 0 ELSE Dot(q, b)
  IN da * Max2(nb, 1) > db * Max2(na, 1)
CosOK(q, nq, a, na, sc) ==
  LET n == nq * na IN IF n = 0 THEN Abs(sc - 100000) <= 3
                      ELSE Abs(sc * n - 100000 * (n - Dot(q, a))) <= 3 * n
RescoreOK(c, s, e) ==
  LET vs == s.tr[1].vs  nm == s.tr[1].norm  n == Len(vs)
      qq == Fit(e.q, Dim(s))
      idx == [i \in 1..Len(e.idx) |-> e.idx[i] + 1] IN
  /\ e.r = "ok"
  /\ Len(e.idx) = Min2(e.k, n) /\ Len(e.d) = Len(e.idx)
  /\ SeqSet(idx) \subseteq 1..n /\ Cardinality(SeqSet(idx)) = Len(idx)
  /\ \A i \in 1..Len(idx) : CosOK(qq, e.nq, vs[idx[i]], nm[idx[i]], e.d[i])
  /\ \A i, j \in 1..Len(idx) :
        i < j => ~CloserBy(qq, vs[idx[j]], nm[idx[j]], vs[idx[i]], nm[idx[i]])
  (* Only the vectors with the closest codes (e.qd: their distances) are rescored. *)
  /\ LET cand == Max2(c.rescore, e.k)
         sure(x) == cand >= n \/ Cardinality({j \in 1..n : j # x /\ e.qd[j] <= e.qd[x] + 3}) < cand
         may(x) == cand >= n \/ Cardinality({j \in 1..n : e.qd[j] < e.qd[x] - 3}) < cand IN
     /\ Len(e.qd) = n
     /\ \A i \in 1..Len(idx) : may(idx[i])
     /\ \A x \in (1..n) \ SeqSet(idx) :
           (\E i \in 1..Len(idx) : CloserBy(qq, vs[x], nm[x], vs[idx[i]], nm[idx[i]])) => ~sure(x)

(* ------------------------------------------------------------------ steps *)
TrainRec(c, e) ==
  [vs |-> e.vs, norm |-> e.norm, book |-> e.book, segs |-> e.segs, bits |-> e.bits]
TrainOK(c, e) ==
  CASE c.kind = "scalar" -> TRUE
    [] c.kind = "product" -> BookOK(c, e.vs, e.book)
    [] c.kind = "saq" -> SegmentsOK(c, e.vs, e.segs, e.bits)
(* What may be wrong with an event; {} if the event is allowed.             *)
Faults(c, s, e) ==
  (IF ~e.intact THEN {"argument changed"} ELSE {}) \cup
  CASE e.op = "init" -> IF e.r = "ok" THEN {} ELSE {"init"}
    [] e.op = "close" -> IF e.r = "ok" THEN {} ELSE {"close"}
    [] e.op = "train" ->
         IF ~s.open THEN (IF e.r = "err" THEN {} ELSE {"closed"})
         ELSE IF e.r # "ok" THEN {"training"} ELSE IF TrainOK(c, e) THEN {} ELSE {"trained"}
    [] e.op = "badtrain" -> IF e.r = "err" THEN {} ELSE {"accepted"}
    [] e.op = "quant" ->
         IF ~s.open \/ ~Trained(s) THEN (IF e.r = "err" THEN {} ELSE {"untrained"})
         ELSE IF e.r # "ok" THEN {"error"}
         ELSE (IF Len(e.code) = Len(e.x) /\ Len(e.y) = Len(e.x) THEN {} ELSE {"shape"}) \cup
              (IF \A i \in 1..Min2(Len(e.x), Min2(Len(e.code), Len(e.y))) :
                     CodedOK(c, s, e.x[i], e.code[i], e.y[i]) THEN {} ELSE {"coding"})
    [] e.op = "decode" ->        \* codes given out since the training
         IF ~s.open \/ ~Trained(s) THEN (IF e.r = "err" THEN {} ELSE {"untrained"})
         ELSE IF e.r # "ok" THEN {"error"}
         ELSE IF Len(e.y) = Len(e.code) /\ \A i \in 1..Len(e.code) : \E t \in s.seen : t[2] = e.code[i] /\ t[3] = e.y[i]
         THEN {} ELSE {"decoding"}
    [] e.op = "badquant" -> IF e.r = "err" THEN {} ELSE {"accepted"}
    [] e.op = "dist" ->
         IF ~s.open \/ ~Trained(s) THEN (IF e.r = "err" THEN {} ELSE {"untrained"})
         ELSE IF e.r = "ok" /\ DistOK(c, e.q, e.y, e.d) THEN {} ELSE {"distance"}
    [] e.op = "search" ->
         IF ~s.open \/ ~Trained(s) THEN (IF e.r = "err" THEN {} ELSE {"untrained"})
         ELSE IF RescoreOK(c, s, e) THEN {} ELSE {"rescoring"}
    [] e.op = "stats" -> IF e.open = s.open /\ e.trained = (s.open /\ Trained(s)) THEN {} ELSE {"stats"}

After(c, s, e) ==
  CASE e.op = "init" -> [Init0 EXCEPT !.open = TRUE]
    [] e.op = "close" -> Init0
    [] e.op = "train" /\ e.r = "ok" -> [s EXCEPT !.tr = <<TrainRec(c, e)>>, !.seen = {}]
    [] e.op = "quant" /\ e.r = "ok" ->
         [s EXCEPT !.seen = @ \cup {<<e.x[i], e.code[i], e.y[i]>> : i \in 1..Len(e.x)}]
    [] OTHER -> s
=============================================================================
