----------------------------- MODULE Document -----------------------------
(* What a parser must report for a document.  Texts are sequences of code   *)
(* points, whitespace negated (a newline is -10, a carriage return -13).    *)
(* e.doc is the document as it was written, e.got what the parser returned. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxS(X) == CHOOSE x \in X : \A y \in X : y <= x
Strip(t) == LET N == {i \in 1..Len(t) : t[i] > 0} IN
            IF N = {} THEN <<>> ELSE SubSeq(t, MinS(N), MaxS(N))
RECURSIVE Join(_, _)
Join(L, sep) == IF L = <<>> THEN <<>> ELSE IF Len(L) = 1 THEN L[1] ELSE L[1] \o sep \o Join(Tail(L), sep)
Index(n) == [i \in 1..n |-> i]
Which(L, P(_)) == SelectSeq(Index(Len(L)), P)
Pick(L, I) == [k \in 1..Len(I) |-> L[I[k]]]
NL == <<-10>>
BAR == <<-32, 124, -32>>
Blank(t) == Strip(t) = <<>>
Words(t) == Cardinality({i \in 1..Len(t) : t[i] > 0 /\ (i = 1 \/ t[i - 1] <= 0)})

(* ----------------------------------------------------------- plain text *)
Newlines(c) ==      \* CR LF and CR are read as LF
  LET I == SelectSeq(Index(Len(c)), LAMBDA i : ~(c[i] = -10 /\ i > 1 /\ c[i - 1] = -13))
  IN [k \in 1..Len(I) |-> IF c[I[k]] = -13 THEN -10 ELSE c[I[k]]]
RunStart(t, i) == MaxS({0} \cup {j \in 1..(i - 1) : t[j] # -10}) + 1
Paragraphs(t) == 1 + Cardinality({i \in 1..(Len(t) - 1) :
                       t[i] = -10 /\ t[i + 1] = -10 /\ (i - RunStart(t, i)) % 2 = 0})
Common == {<<116, 104, 101>>, <<97, 110, 100>>, <<111, 114>>, <<98, 117, 116>>, <<105, 110>>, <<111, 110>>,
           <<97, 116>>, <<116, 111>>, <<102, 111, 114>>, <<111, 102>>, <<119, 105, 116, 104>>, <<98, 121>>}
Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
Contains(t, w) == \E i \in 0..(Len(t) - Len(w)) : \A j \in 1..Len(w) : Lower(t[i + j]) = w[j]
Language(t) ==
  LET h == IF Len(t) > 1000 THEN SubSeq(t, 1, 1000) ELSE t IN
  IF Len(t) > 100 /\ Cardinality({w \in Common : Contains(h, w)}) > 3 THEN "en" ELSE "unknown"
TextFaults(e) ==
  LET t == Newlines(e.doc) IN
  (IF e.got.text = t THEN {} ELSE {"text"}) \cup
  (IF e.got.paragraphs = Paragraphs(t) THEN {} ELSE {"paragraphs"}) \cup
  (IF e.got.language = Language(t) THEN {} ELSE {"language"}) \cup
  (IF e.enc = "auto" \/ e.got.encoding = e.enc THEN {} ELSE {"encoding"})

(* -------------------------------------------------------- paged formats *)
PdfFaults(e) ==       \* doc: pages [t, ok]
  LET I == Which(e.doc, LAMBDA i : e.doc[i].ok /\ ~Blank(e.doc[i].t))
      t == Join([k \in 1..Len(I) |-> e.doc[I[k]].t], <<-10, -10>>) IN
  (IF e.got.text = t THEN {} ELSE {"text"}) \cup
  (IF e.got.n = Len(e.doc) /\ e.got.withtext = Len(I) THEN {} ELSE {"number of pages"}) \cup
  (IF e.got.info = [k \in 1..Len(I) |-> <<I[k], Len(e.doc[I[k]].t)>>] THEN {} ELSE {"page information"}) \cup
  (IF e.got.reading = Words(t) \div 200 THEN {} ELSE {"reading time"}) \cup
  (IF e.got.about = e.about THEN {} ELSE {"document information"})

DocxFaults(e) ==      \* doc: paragraphs [t, style]; e.tables: tables of rows of cells
  LET I == Which(e.doc, LAMBDA i : ~Blank(e.doc[i].t))
      t == Join([k \in 1..Len(I) |-> Strip(e.doc[I[k]].t)], NL)
      T == IF e.extract THEN e.tables ELSE <<>>
      want == [k \in 1..Len(T) |-> [r \in 1..Len(T[k]) |-> [c \in 1..Len(T[k][r]) |-> Strip(T[k][r][c])]]] IN
  (IF e.got.text = t THEN {} ELSE {"text"}) \cup
  (IF e.got.n = Len(I) /\ e.got.info = [k \in 1..Len(I) |->
        <<I[k], Len(Strip(e.doc[I[k]].t)), e.doc[I[k]].style>>] THEN {} ELSE {"paragraphs"}) \cup
  (IF e.got.tables = want /\ e.got.ntables = Len(T) /\
      e.got.sizes = [k \in 1..Len(T) |-> <<k, Len(T[k]), Len(T[k][1])>>] THEN {} ELSE {"tables"}) \cup
  (IF e.got.reading = Words(t) \div 200 THEN {} ELSE {"reading time"})

(* rows and columns up to the last cell with something in it                 *)
Extent(R) == LET full == {p \in {<<r, c>> : r \in 1..Len(R), c \in 1..8} : p[2] <= Len(R[p[1]]) /\ R[p[1]][p[2]] # <<-1>>} IN
             <<MaxS({p[1] : p \in full}), MaxS({p[2] : p \in full})>>
RECURSIVE Cells(_)
Cells(q) == IF q = <<>> THEN 0 ELSE q[1][1] * q[1][2] + Cells(Tail(q))
XlsxFaults(e) ==      \* doc: sheets [name, rows: rows of cells, <<-1>> an empty one]
  LET row(r) == Join(SelectSeq(r, LAMBDA x : x # <<-1>>), BAR)
      rows(s) == LET R == SelectSeq(s.rows, LAMBDA r : \E i \in 1..Len(r) : r[i] # <<-1>>)
                 IN Join([k \in 1..Len(R) |-> row(R[k])], NL)
      full(s) == \E k \in 1..Len(s.rows) : \E i \in 1..Len(s.rows[k]) : s.rows[k][i] # <<-1>>
      I == Which(e.doc, LAMBDA i : full(e.doc[i]))
      t == Join([k \in 1..Len(I) |-> <<83, 104, 101, 101, 116, 58, -32>> \o e.doc[I[k]].name \o NL \o rows(e.doc[I[k]])],
                <<-10, -10>>) IN
  (IF e.got.text = t THEN {} ELSE {"text"}) \cup
  (IF e.got.n = Len(e.doc) /\ e.got.names = [k \in 1..Len(e.doc) |-> e.doc[k].name] THEN {} ELSE {"sheets"}) \cup
  (IF e.got.info = [k \in 1..Len(I) |-> <<e.doc[I[k]].name, Len(rows(e.doc[I[k]]))>>] THEN {} ELSE {"sheet information"}) \cup
  (IF e.got.size = [k \in 1..Len(I) |-> Extent(e.doc[I[k]].rows)] /\ e.got.cells = Cells(e.got.size) THEN {} ELSE {"size of the sheets"})

PptxFaults(e) ==      \* doc: slides, each a sequence of shape texts
  LET body(s) == LET S == SelectSeq(s, LAMBDA x : ~Blank(x)) IN Join([k \in 1..Len(S) |-> Strip(S[k])], NL)
      I == Which(e.doc, LAMBDA i : \E k \in 1..Len(e.doc[i]) : ~Blank(e.doc[i][k]))
      digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
      t == Join([k \in 1..Len(I) |-> <<83, 108, 105, 100, 101, -32>> \o digits(I[k]) \o <<58, -32>> \o body(e.doc[I[k]])],
                <<-10, -10>>) IN
  (IF e.got.text = t THEN {} ELSE {"text"}) \cup
  (IF e.got.n = Len(e.doc) THEN {} ELSE {"number of slides"}) \cup
  (IF e.got.info = [k \in 1..Len(I) |-> <<I[k], Len(body(e.doc[I[k]])),
        Len(SelectSeq(e.doc[I[k]], LAMBDA x : ~Blank(x)))>>] THEN {} ELSE {"slide information"}) \cup
  (IF e.got.reading = Words(t) \div 200 THEN {} ELSE {"reading time"})

(* e.why: "" or why the parser has to refuse the file                       *)
Faults(e) ==
  IF e.why # "" THEN IF e.r = "ParsingError" THEN {} ELSE {"accepted: " \o e.why}
  ELSE IF e.r # "ok" THEN {"error"}
  ELSE (IF e.again THEN {} ELSE {"parsing again differs"}) \cup
       (IF e.got.name /\ e.got.fsize THEN {} ELSE {"file name or size"}) \cup
       CASE e.op = "text" -> TextFaults(e)
         [] e.op = "pdf" -> PdfFaults(e)
         [] e.op = "docx" -> DocxFaults(e)
         [] e.op = "xlsx" -> XlsxFaults(e)
         [] e.op = "pptx" -> PptxFaults(e)
=============================================================================
