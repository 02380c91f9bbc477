------------------------------- MODULE Embed -------------------------------
(* The embedding processor.  A text is a name; the traces identify vectors  *)
(* by the reference vectors they agree with: <<"raw", t>> is what the model *)
(* gives for t, <<"unit", t>> the same divided by its norm, <<"zero">> the  *)
(* zero vector of the model's dimension, <<"other">> anything else.         *)
(* tx: facts about the texts: blank (nothing but white space), null (the    *)
(* model gives the zero vector), fail (the model cannot embed it).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Vec(norm, tx, t) ==
  IF tx[t].blank \/ tx[t].null THEN <<"zero">> ELSE IF norm THEN <<"unit", t>> ELSE <<"raw", t>>
Vecs(norm, tx, q) == [i \in 1..Len(q) |-> Vec(norm, tx, q[i])]
(* blank texts never reach the model in process(); in batches they may      *)
Fails(tx, q) == \E i \in 1..Len(q) : tx[q[i]].fail

(* st: [ini, norm, dim, known]; known: there is such a type of models *)
Good(st, tx, e) ==
  CASE e.op = "init" -> e.r = (IF st.known THEN "ok" ELSE "err")
    [] e.op \in {"close", "clear", "spoil"} -> e.r = "ok"
    [] e.op = "process" ->
         IF ~st.ini \/ Fails(tx, e.texts \o e.chunks) THEN e.r = "err"
         ELSE /\ e.r = "ok" /\ e.kept /\ e.dims
              /\ e.out = Vecs(st.norm, tx, e.texts)
              /\ e.haschunks => e.outs = Vecs(st.norm, tx, e.chunks)
    [] e.op = "batch" ->
         IF ~st.ini \/ Fails(tx, e.texts) THEN e.r = "err"
         ELSE e.r = "ok" /\ e.dims /\ e.out = Vecs(st.norm, tx, e.texts)
    [] e.op = "dim" -> e.r = "ok" /\ e.n = (IF st.ini THEN st.dim ELSE 0)
    [] OTHER -> FALSE
After(st, e) == CASE e.op = "init" -> [st EXCEPT !.ini = st.known] [] e.op = "close" -> [st EXCEPT !.ini = FALSE] [] OTHER -> st
=============================================================================
