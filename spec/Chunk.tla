------------------------------- MODULE Chunk -------------------------------
(* Splitting a text.  A text is a sequence of code points, whitespace       *)
(* negated (a newline is -10).  Positions are 0-based, ends exclusive.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxS(X) == CHOOSE x \in X : \A y \in X : y <= x
Nonws(T, s, e) == {i \in (s + 1)..e : T[i] > 0}
Strip(T, s, e) == LET N == Nonws(T, s, e) IN
                  IF N = {} THEN <<>> ELSE SubSeq(T, MinS(N), MaxS(N))
StripLen(T, s, e) == LET N == Nonws(T, s, e) IN IF N = {} THEN 0 ELSE MaxS(N) - MinS(N) + 1
Dense(q) == SelectSeq(q, LAMBDA c : c > 0)

(* c: a configuration  S size, O overlap, m and M smallest and largest chunk *)
Lim(c) == Min2(c.S, c.M)
(* position p (1-based) may be missing: it is in a piece too small to keep. *)
(* Pieces end at the size limit, at the end of the text or after more than  *)
(* m characters.                                                            *)
Droppable(T, lo, hi, c, p) ==
  \E s \in Max2(lo, p - Lim(c))..(p - 1) : \E e \in p..Min2(hi, s + Lim(c)) :
     (e = hi \/ e - s >= Min2(Lim(c), c.m + 1)) /\ StripLen(T, s, e) < c.m
Covered(C) == UNION {(C[i].s + 1)..C[i].e : i \in 1..Len(C)}

Basic(T, c, C) ==
  /\ \A i \in 1..Len(C) : /\ 0 <= C[i].s /\ C[i].s < C[i].e /\ C[i].e <= Len(T)
                          /\ Len(C[i].t) >= c.m /\ Len(C[i].t) <= c.M /\ C[i].len = Len(C[i].t) /\ C[i].wp = C[i].s
  /\ \A i \in 1..(Len(C) - 1) : C[i].s < C[i + 1].s /\ C[i].id < C[i + 1].id
  /\ \A i \in 1..Len(C) : \A j \in (i + 1)..Len(C) : C[j].s >= C[i].e - c.O

(* once the end of the text is reached nothing is repeated (sliding windows may) *)
Forward(T, C) == \A i \in 1..(Len(C) - 1) : C[i].e <= C[i + 1].e /\ C[i].e < Len(T)
(* fixed size, sliding window, parsers *)
PlainOK(T, c, C) ==
  /\ Basic(T, c, C)
  /\ \A i \in 1..Len(C) : C[i].e - C[i].s <= Lim(c) /\ C[i].t = Strip(T, C[i].s, C[i].e)
  /\ LET K == Covered(C) IN
     \A p \in 1..Len(T) : (T[p] > 0 /\ p \notin K) => Droppable(T, 0, Len(T), c, p)

(* semantic: chunks of whole paragraphs after a repeated end of the text before *)
Breaks(T) == {i \in 1..(Len(T) - 1) : T[i] = -10 /\ T[i + 1] = -10}
ParaLo(T, B, p) == MaxS({0} \cup {i + 1 : i \in {x \in B : x + 1 < p}})
ParaHi(T, B, p) == MinS({Len(T)} \cup {i - 1 : i \in {x \in B : x > p}})
EndsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b
SemanticOK(T, c, C) ==
  LET B == Breaks(T)  K == Covered(C) IN
  /\ Basic(T, c, C)
  /\ \A i \in 1..Len(C) :
       LET own == Dense(SubSeq(T, C[i].s + 1, C[i].e))
           all == Dense(C[i].t)
           k == Len(all) - Len(own)
           single == \A b \in B : b <= C[i].s \/ b >= C[i].e
       IN /\ 0 <= k /\ k <= c.O
          /\ EndsWith(all, own)
          /\ EndsWith(Dense(SubSeq(T, 1, C[i].s)), SubSeq(all, 1, k))
          /\ Len(C[i].t) <= Lim(c) \/ single
          /\ single => EndsWith(C[i].t, Strip(T, C[i].s, C[i].e))
  /\ \A p \in 1..Len(T) : (T[p] > 0 /\ p \notin K) =>
       LET lo == ParaLo(T, B, p)  hi == ParaHi(T, B, p)
           N == Nonws(T, lo, hi)  a == MinS(N) - 1  z == MaxS(N)
       IN z - a < c.m \/ (z - a > c.M /\ Droppable(T, a, z, c, p))

(* documents of several pages joined by an empty line: e.pages their numbers *)
(* and lengths, the page of a chunk is that of its start                     *)
RECURSIVE PageOf(_, _, _)
PageOf(P, i, pos) == IF i >= Len(P) \/ pos < P[i].len THEN P[i].no ELSE PageOf(P, i + 1, Max2(0, pos - P[i].len - 2))
PagesOK(e) == e.pages # <<>> => \A i \in 1..Len(e.chunks) :
  LET N == Nonws(e.T, e.chunks[i].s, e.chunks[i].e) IN
  e.chunks[i].page \in {PageOf(e.pages, 1, e.chunks[i].s), PageOf(e.pages, 1, MinS(N) - 1)}
(* documents as lists of elements (text, table, figure): chunks are runs of *)
(* whole text elements that end with the one that reaches the size          *)
RECURSIVE Joined(_, _, _)
Joined(L, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN L[a] ELSE L[a] \o <<-10>> \o Joined(L, a + 1, b)
Texts(e) == SelectSeq([i \in 1..Len(e.els) |-> e.els[i].t], LAMBDA t : t # <<>>)
Ids(e, kind) == LET S == SelectSeq(e.els, LAMBDA x : (kind = "table" /\ x.tab) \/ (kind = "figure" /\ x.fig))
                IN [i \in 1..Len(S) |-> S[i].id]
ElementsOK(e) ==
  LET L == Texts(e)  C == e.chunks  N == Len(C)
  IN /\ e.T = Joined(L, 1, Len(L))
     /\ (L = <<>>) = (C = <<>>)
     /\ \A i \in 1..N :
          /\ C[i].id = i - 1
          /\ C[i].a = (IF i = 1 THEN 0 ELSE C[i - 1].b + 1)
          /\ C[i].a <= C[i].b /\ C[i].b < Len(L)
          /\ C[i].t = Joined(L, C[i].a + 1, C[i].b + 1)
          /\ i < N => Len(C[i].t) + 1 >= e.c.S
          /\ C[i].b > C[i].a => Len(Joined(L, C[i].a + 1, C[i].b)) + 1 < e.c.S
     /\ N > 0 => C[N].b = Len(L) - 1
     /\ e.ntext = Len(L)
     /\ e.tabs = (IF e.tables THEN Ids(e, "table") ELSE <<>>) /\ e.ntabs = Len(e.tabs)
     /\ e.figs = (IF e.figures THEN Ids(e, "figure") ELSE <<>>) /\ e.nfigs = Len(e.figs)
Valid(e) == e.c.S > 0 /\ e.c.O >= 0 /\ e.c.O < e.c.S
Faults(e) ==
  (IF ~e.intact THEN {"argument changed"} ELSE {}) \cup
  CASE e.op = "chunk" ->
         IF e.r # "ok" THEN {"error"}
         ELSE IF e.kind = "semantic"
         THEN IF SemanticOK(e.T, e.c, e.chunks) /\ Forward(e.T, e.chunks) THEN {} ELSE {"semantic"}
         ELSE IF PlainOK(e.T, e.c, e.chunks) /\ (e.kind = "fixed" => Forward(e.T, e.chunks)) THEN {} ELSE {e.kind}
    [] e.op = "parse" ->
         (* short documents need not be split; the text is the file's       *)
         IF e.r # "ok" THEN {"error"}
         ELSE (IF e.T = e.file THEN {} ELSE {"text"}) \cup
              IF (Len(e.T) <= e.c.S /\ e.chunks = <<>>) \/ (PlainOK(e.T, e.c, e.chunks) /\ Forward(e.T, e.chunks) /\ PagesOK(e)) THEN {} ELSE {"parser"}
    [] e.op = "elements" ->
         IF e.r # "ok" THEN {"error"} ELSE IF ElementsOK(e) THEN {} ELSE {"elements"}
    [] e.op = "badconfig" -> IF e.r = "err" THEN {} ELSE {"bad configuration accepted"}

(* --------------------------------------------------------- the algorithm *)
(* separators: newline pairs, newlines, blanks *)
Seps == << <<-10, -10>>, <<-10>>, <<-32>> >>
FoundAt(T, sep, s, e) == {i \in s..(e - Len(sep)) : SubSeq(T, i + 1, i + Len(sep)) = sep}
Best(T, c, s, e) ==
  LET ok(k) == {i \in FoundAt(T, Seps[k], s, e) : TRUE}
      last(k) == IF ok(k) = {} THEN -1 ELSE MaxS(ok(k))
      good == {k \in 1..Len(Seps) : last(k) > s + c.m}
  IN IF good = {} THEN e ELSE last(MinS(good)) + Len(Seps[MinS(good)])
RECURSIVE Fixed(_, _, _, _, _)
Fixed(T, c, s, id, cap) ==
  LET n == Len(T)
      size == IF cap THEN Lim(c) ELSE c.S
      e0 == Min2(s + size, n)
      b == IF e0 < n THEN Best(T, c, s, e0) ELSE e0
      e == IF b > s + c.m THEN b ELSE e0
      t == Strip(T, s, e)
      me == IF t = <<>> THEN <<>> ELSE <<[id |-> id, t |-> t, s |-> s, e |-> e, len |-> Len(t), wp |-> s]>>
  IN IF s >= n THEN <<>>
     ELSE me \o (IF e >= n THEN <<>> ELSE Fixed(T, c, Max2(e - c.O, s + 1), id + Len(me), cap))
RECURSIVE Sliding(_, _, _, _)
Sliding(T, c, i, id) ==
  LET n == Len(T)  e == Min2(i + Lim(c), n)  t == Strip(T, i, e)
      me == IF Len(t) < c.m \/ t = <<>> THEN <<>> ELSE <<[id |-> id, t |-> t, s |-> i, e |-> e, len |-> Len(t), wp |-> i]>>
  IN IF i >= n THEN <<>> ELSE me \o Sliding(T, c, i + Lim(c) - c.O, id + Len(me))
Keep(c, C) == SelectSeq(C, LAMBDA x : c.m <= Len(x.t) /\ Len(x.t) <= c.M)
=============================================================================
