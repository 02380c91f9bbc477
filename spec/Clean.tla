------------------------------- MODULE Clean -------------------------------
(* The cleaning steps.  A text is a sequence of code points; an HTML entity *)
(* is the negated code point of its character.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Flat(Tail(qs))
Map(q, f(_)) == Flat([i \in 1..Len(q) |-> f(q[i])])

(* -------------------------------------------------- facts of Unicode/HTML *)
Spaces == {9, 10, 32, 160, 8195, 12288}
IsSpace(x) == x \in Spaces
Upper == (65..90) \cup {201, 304, 916}
IsWord(x) == x \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 201, 233, 304, 916, 948, 64257, 189, 178, 20013}
Kept == {45, 46, 44, 33, 63, 59, 58}
Nfkd1(x) == CASE x \in {160, 8195, 12288} -> <<32>> [] x = 233 -> <<101, 769>> [] x = 201 -> <<69, 769>>
              [] x = 304 -> <<73, 775>> [] x = 64257 -> <<102, 105>> [] x = 65308 -> <<60>> [] x = 65310 -> <<62>>
              [] x = 189 -> <<49, 8260, 50>> [] x = 178 -> <<50>> [] x = 168 -> <<32, 776>> [] OTHER -> <<x>>
Lower1(x) == CASE x \in 65..90 -> <<x + 32>> [] x = 201 -> <<233>> [] x = 304 -> <<105, 775>> [] x = 916 -> <<948>>
               [] OTHER -> <<x>>
(* the source text of an entity, e.g. &lt; *)
Raw1(x) == IF x >= 0 THEN <<x>> ELSE
  CASE x = -60 -> <<38, 108, 116, 59>> [] x = -62 -> <<38, 103, 116, 59>> [] x = -38 -> <<38, 97, 109, 112, 59>>
    [] x = -160 -> <<38, 110, 98, 115, 112, 59>> [] x = -233 -> <<38, 101, 97, 99, 117, 116, 101, 59>>
    [] x = -65 -> <<38, 35, 54, 53, 59>>
Decode1(x) == IF x >= 0 THEN <<x>> ELSE <<0 - x>>

(* ---------------------------------------------------------------- steps *)
(* remove what looks like <...> (at least one character between)           *)
RECURSIVE Tags(_)
Tags(q) == IF q = <<>> THEN <<>>
           ELSE LET E == {j \in 3..Len(q) : q[j] = 62 /\ \A i \in 2..(j - 1) : q[i] # 62} IN
                IF q[1] = 60 /\ E # {} THEN Tags(SubSeq(q, (CHOOSE j \in E : TRUE) + 1, Len(q)))
                ELSE <<q[1]>> \o Tags(Tail(q))
Special(k, q) == [i \in 1..Len(q) |->
  IF (k = "default" /\ ~IsWord(q[i]) /\ ~IsSpace(q[i]) /\ q[i] \notin Kept) \/ (k = "digits" /\ q[i] \in 48..57)
  THEN 32 ELSE q[i]]
(* runs of the characters in S become one blank *)
Collapse(q, S(_)) ==
  LET keep(i) == ~S(q[i]) \/ i = 1 \/ ~S(q[i - 1]) IN
  Flat([i \in 1..Len(q) |-> IF keep(i) THEN <<IF S(q[i]) THEN 32 ELSE q[i]>> ELSE <<>>])
TrimL(q) == LET N == {i \in 1..Len(q) : ~IsSpace(q[i])} IN
            IF N = {} THEN <<>> ELSE SubSeq(q, CHOOSE i \in N : \A j \in N : i <= j, CHOOSE i \in N : \A j \in N : j <= i)
RECURSIVE Words(_, _)
Words(q, cur) == IF q = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                 ELSE IF IsSpace(q[1]) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Words(Tail(q), <<>>)
                 ELSE Words(Tail(q), Append(cur, q[1]))
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Join(Tail(ws))
Stop(c, q) == Join(SelectSeq(Words(q, <<>>), LAMBDA w :
                 Map(w, Lower1) \notin SeqSet(c.stopwords) /\ c.minw <= Len(w) /\ Len(w) <= c.maxw))

(* the configured steps, in their order *)
Clean(c, T) ==
  LET a == IF c.html THEN Tags(Map(T, Decode1)) ELSE Map(T, Raw1)
      b == IF c.uni THEN Map(a, Nfkd1) ELSE a
      d == IF c.special # "off" THEN Special(c.special, b) ELSE b
      w == IF c.ws THEN TrimL(Collapse(d, IsSpace)) ELSE d
      x == IF c.extra THEN Collapse(w, LAMBDA y : y = 32) ELSE w
      l == IF c.lower THEN Map(x, Lower1) ELSE x
  IN IF c.stop THEN Stop(c, l) ELSE l

(* ------------------------------------------------------------ consequences *)
Off(c) == ~c.html /\ ~c.uni /\ c.special = "off" /\ ~c.ws /\ ~c.extra /\ ~c.lower /\ ~c.stop
HasTag(q) == \E i \in 1..Len(q) : q[i] = 60 /\ \E j \in (i + 2)..Len(q) : q[j] = 62 /\ \A k \in (i + 1)..(j - 1) : q[k] # 62
NoTrace(c, T) ==
  LET o == Clean(c, T) IN
  /\ Off(c) => o = Map(T, Raw1)
  /\ (c.html /\ SeqSet(T) \cap {65308, 65310} = {}) => ~HasTag(o)
  /\ c.special = "default" => \A i \in 1..Len(o) : IsWord(o[i]) \/ IsSpace(o[i]) \/ o[i] \in Kept \/ (c.lower /\ o[i] = 775)
  /\ c.ws => /\ \A i \in 1..Len(o) : IsSpace(o[i]) => o[i] = 32 /\ i > 1 /\ i < Len(o)
             /\ \A i \in 1..(Len(o) - 1) : ~(o[i] = 32 /\ o[i + 1] = 32)
  /\ c.extra => \A i \in 1..(Len(o) - 1) : ~(o[i] = 32 /\ o[i + 1] = 32)
  /\ c.lower => SeqSet(o) \cap Upper = {}
  /\ c.stop => \A w \in SeqSet(Words(o, <<>>)) : Map(w, Lower1) \notin SeqSet(c.stopwords)
(* entities and compatibility characters can become markup or entities     *)
Idempotent(c, T) ==
  (\A i \in 1..Len(T) : T[i] >= 0 /\ T[i] \notin {65308, 65310, 304}) => Clean(c, Clean(c, T)) = Clean(c, T)

Faults(e) ==
  (IF ~e.intact THEN {"argument changed"} ELSE {}) \cup (IF ~e.kept THEN {"document"} ELSE {}) \cup
  CASE e.op = "clean" ->
         IF e.r = "ok" /\ e.out = Clean(e.c, e.T) /\ Len(e.outs) = Len(e.chunks)
            /\ \A i \in 1..Len(e.chunks) : e.outs[i] = Clean(e.c, e.chunks[i]) THEN {} ELSE {"cleaned text"}
    [] e.op = "again" ->
         IF e.r = "ok" /\ (e.plain => e.same) THEN {} ELSE {"cleaning twice"}
    [] e.op = "closed" -> IF e.r = "err" THEN {} ELSE {"closed"}
=============================================================================
