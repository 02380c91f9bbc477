------------------------------ MODULE Registry ------------------------------
(* The parser registry.  A parser class is given by the suffixes it reads;  *)
(* an instance by its class and a tag.  State:                               *)
(*   ini  initialized                                                        *)
(*   cur  name -> [cls, tag] of the parsers in use                           *)
(*   cls  name -> class known under this name                                *)
(*   conf name -> tag: the parsers to create on initialization               *)
(* File names and suffixes are sequences of code points.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Lower1(x) == IF x \in 65..90 THEN x + 32 ELSE x
Lower(q) == [i \in 1..Len(q) |-> Lower1(q[i])]
Last(q, x) == LET S == {i \in 1..Len(q) : q[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
BaseName(q) == SubSeq(q, Last(q, 47) + 1, Len(q))
(* the suffix: from the last dot, unless it begins or ends the name          *)
Suffix(path) == LET q == BaseName(path)  d == Last(q, 46) IN
                IF d <= 1 \/ d = Len(q) \/ (\A i \in 1..(d - 1) : q[i] = 46) THEN <<>> ELSE Lower(SubSeq(q, d, Len(q)))

S(t) == t   \* readability
txt == <<46, 116, 120, 116>>      md == <<46, 109, 100>>       rst == <<46, 114, 115, 116>>
log == <<46, 108, 111, 103>>      csv == <<46, 99, 115, 118>>  pdf == <<46, 112, 100, 102>>
docx == <<46, 100, 111, 99, 120>> xlsx == <<46, 120, 108, 115, 120>> xls == <<46, 120, 108, 115>>
pptx == <<46, 112, 112, 116, 120>> zip == <<46, 122, 105, 112>>   zz == <<46, 90, 122>>
Formats(c) == CASE c = "text" -> {txt, md, rst, log, csv} [] c = "pdf" -> {pdf} [] c = "office" -> {docx, xlsx, xls, pptx}
                [] c = "A" -> {txt, zip} [] c = "B" -> {zip, zz} [] c = "C" -> {} [] c = "D" -> {txt, pdf, docx, md, zip}
Broken == {"docling", "broken"}       \* their initialization fails
Known == {"text", "pdf", "office", "docling"}
Prio(n) == CASE n = "text" -> 1 [] n = "pdf" -> 2 [] n = "office" -> 3 [] n = "docling" -> 4 [] OTHER -> 0

Start(conf) == [ini |-> FALSE, cur |-> <<>>, cls |-> [n \in Known |-> n], conf |-> conf]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Initialize(st) ==
  LET M == {n \in DOMAIN st.conf \cap DOMAIN st.cls : st.cls[n] \notin Broken} IN
  [st EXCEPT !.ini = TRUE,
             !.cur = [n \in DOMAIN st.cur \cup M |-> IF n \in M THEN [cls |-> st.cls[n], tag |-> st.conf[n]] ELSE st.cur[n]]]
Close(st) == [st EXCEPT !.ini = FALSE, !.cur = <<>>]
Add(st, n, c, tag) == IF c \in Broken THEN st
                      ELSE [st EXCEPT !.cur = Put(@, n, [cls |-> c, tag |-> tag]), !.cls = Put(@, n, c)]
Remove(st, n) == [st EXCEPT !.cur = Del(@, n), !.cls = Del(@, n)]

Can(st, n, path) == Suffix(path) \in Formats(st.cur[n].cls)
Suited(st, path) == {n \in DOMAIN st.cur : Can(st, n, path)}
(* the names whose parser may be chosen; no name: an error *)
Chosen(st, path, want) ==
  IF ~st.ini THEN {}
  ELSE IF want # "" THEN {want} \cap DOMAIN st.cur
  ELSE {n \in Suited(st, path) : \A m \in Suited(st, path) : Prio(m) <= Prio(n)}
AllFormats(st) == IF st.ini THEN UNION {Formats(st.cur[n].cls) : n \in DOMAIN st.cur} ELSE {}

(* ------------------------------------------------- recorded calls: faults *)
Builtin(c) == c \in {"text", "pdf", "office"}
(* the parsers closed by the call (only the custom ones tell)      *)
Shut(st, e, N) == LET C == {n \in N : ~Builtin(st.cur[n].cls)} IN
                  SeqSet(e.closed) = {st.cur[n].tag : n \in C}
Good(st, e) ==
  CASE e.op = "init" -> e.r = "ok"
    [] e.op = "close" -> e.r = "ok" /\ Shut(st, e, DOMAIN st.cur)
    [] e.op = "remove" -> e.r = "ok" /\ Shut(st, e, {e.name} \cap DOMAIN st.cur)
    [] e.op = "add" -> e.r = (IF e.cls \in Broken THEN "err" ELSE "ok")
    [] e.op = "get" ->
         LET C == Chosen(st, e.path, e.name) IN
         IF C = {} THEN e.r = "err" ELSE e.r = "ok" /\ \E n \in C : e.got = st.cur[n]
    [] e.op = "parse" ->
         LET C == Chosen(st, e.path, e.name)
             ok(n) == ~Builtin(st.cur[n].cls) \/ (e.exists /\ st.cur[n].cls = "text" /\ Can(st, n, e.path))
         IN \/ e.r = "ok" /\ \E n \in C : ok(n) /\ e.by = (IF Builtin(st.cur[n].cls) THEN "content" ELSE st.cur[n].tag)
            \/ e.r = "err" /\ (C = {} \/ \E n \in C : ~ok(n))
    [] e.op = "formats" ->
         /\ e.r = "ok" /\ SeqSet(e.formats) = AllFormats(st) /\ Len(e.formats) = Cardinality(AllFormats(st))
    [] e.op = "info" ->
         e.r = "ok" /\ IF ~st.ini THEN e.avail = <<>> /\ e.unavail = <<>>
                       ELSE /\ SeqSet(e.avail) = DOMAIN st.cur
                            /\ SeqSet(e.unavail) = DOMAIN st.cls \ DOMAIN st.cur
                            /\ \A n \in DOMAIN e.fmts : SeqSet(e.fmts[n]) = (IF n \in DOMAIN st.cur THEN Formats(st.cur[n].cls) ELSE {})
    [] OTHER -> FALSE
After(st, e) ==
  CASE e.op = "init" -> Initialize(st) [] e.op = "close" -> Close(st)
    [] e.op = "add" -> Add(st, e.name, e.cls, e.tag) [] e.op = "remove" -> Remove(st, e.name)
    [] OTHER -> st
=============================================================================
