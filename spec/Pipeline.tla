------------------------------ MODULE Pipeline ------------------------------
(* The processing pipeline.  Documents are identified by fingerprints of    *)
(* their content.  One item (a file or a text) yields a list of calls       *)
(* [s: stage, in, out, r, emb, meta]; Plan is the list of stages it passes. *)
(* st: [mode, conf, pars, memo]                                             *)
(*   mode  "off" never initialized or closed; "on"; "unsure" after a failed *)
(*         initialization of a pipeline that was on before                  *)
(*   conf  the configured processors, in order                              *)
(*   pars  names of the parsers configured                                  *)
(*   memo  <<conf, parser, input, result>> of what was processed before      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Order == <<"clean", "chunk", "embed">>
InOrder(conf) == SelectSeq(Order, LAMBDA s : s \in conf)
Plan(st, e) == (IF e.how = "text" THEN <<>> ELSE <<"parse">>) \o InOrder(st.conf)

(* each stage once, in order, with the result of the one before; nothing after a failure *)
Chained(st, e, x) ==
  LET P == Plan(st, e)  C == x.calls IN
  /\ Len(C) <= Len(P)
  /\ \A i \in 1..Len(C) : C[i].s = P[i] /\ (C[i].r = "err" => i = Len(C))
  /\ \A i \in 1..Len(C) : (i > 1 => C[i].in = C[i - 1].out) /\ (i = 1 => C[i].in = x.in)
Complete(st, e, x) == Len(x.calls) = Len(Plan(st, e)) /\ \A i \in 1..Len(x.calls) : x.calls[i].r = "ok"
Parsable(st, e, x) == e.how = "text" \/ (IF e.parser = "" THEN \E p \in st.pars : p \in SeqSet(x.readers) ELSE e.parser \in st.pars)
Outcome(st, e, x) ==
  IF ~Parsable(st, e, x) THEN x.r = "err" /\ x.calls = <<>>
  ELSE /\ Chained(st, e, x)
       /\ (x.r = "ok") = Complete(st, e, x)
       /\ x.r = "err" => x.calls # <<>>
Result(st, e, x) ==
  x.r = "ok" =>
    /\ x.res = (IF x.calls = <<>> THEN x.in ELSE x.calls[Len(x.calls)].out)
    /\ x.names = InOrder(st.conf)
    /\ x.used = x.parsedby
    /\ \A m \in st.memo : m[1] = st.conf /\ m[2] = x.parsedby /\ m[3] = x.key => m[4] = x.res
Memo(st, e) == {<<st.conf, e.items[i].parsedby, e.items[i].key, e.items[i].res>> : i \in {j \in 1..Len(e.items) : e.items[j].r = "ok"}}

Refused(e) == e.r = "err" /\ \A i \in 1..Len(e.items) : e.items[i].calls = <<>>
Ran(st, e) ==
  /\ \A i \in 1..Len(e.items) : Outcome(st, e, e.items[i]) /\ Result(st, e, e.items[i])
  /\ \A i, j \in 1..Len(e.items) : e.items[i].key = e.items[j].key /\ e.items[i].parsedby = e.items[j].parsedby
        /\ e.items[i].r = "ok" /\ e.items[j].r = "ok" => e.items[i].res = e.items[j].res
  /\ IF e.how \in {"batch", "files"} THEN e.r = "ok" ELSE e.r = e.items[1].r
  /\ e.how = "batch" => e.lined                       \* as many results as files, failures name their file
Rows(e) == LET I == SelectSeq(e.items, LAMBDA x : x.r = "ok") IN
           [i \in 1..Len(I) |-> LET c == I[i].calls[Len(I[i].calls)] IN [v |-> c.emb, m |-> c.meta]]

Good(st, e) ==
  CASE e.op = "init" -> e.r = (IF e.broken THEN "err" ELSE "ok")
    [] e.op = "close" -> e.r = "ok" /\ e.quiet       \* its stages and its parsers are closed as well
    [] e.op = "run" ->
         /\ e.proc                                    \* only the library's own errors
         /\ CASE st.mode = "off" -> Refused(e)
              [] st.mode = "on" -> Ran(st, e)
              [] OTHER -> Refused(e) \/ Ran(st, e)
    [] e.op = "files" ->                              \* a pipeline of its own: text parser, cleaning, embedding
         e.r = "ok" /\ Ran([st EXCEPT !.conf = {"clean", "embed"}, !.pars = {"text", "pdf", "office"}, !.memo = {}], e)
         /\ e.rows = Rows(e)
    [] e.op = "formats" ->
         IF st.mode = "off" THEN e.none ELSE st.mode = "unsure" \/ e.none = (st.pars = {})
    [] OTHER -> FALSE
After(st, e) ==
  CASE e.op = "init" -> IF e.broken THEN [st EXCEPT !.mode = IF @ = "off" THEN "off" ELSE "unsure"]
                        ELSE [st EXCEPT !.mode = "on", !.conf = SeqSet(e.conf), !.pars = SeqSet(e.pars)]
    [] e.op = "close" -> [st EXCEPT !.mode = "off"]
    [] e.op = "run" -> IF st.mode = "off" \/ Refused(e) THEN st ELSE [st EXCEPT !.memo = @ \cup Memo(st, e)]
    [] OTHER -> st
=============================================================================
