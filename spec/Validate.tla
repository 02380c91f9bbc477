------------------------------ MODULE Validate ------------------------------
(* What the validators accept.  Inputs are described by the driver:         *)
(*   arrays  [kind: "nd" | "other", shape, dt, en]; en the entries row by    *)
(*           row, each "z" (zero), "n" (other number), "nan", "inf", "bad"   *)
(*   scalars [t: type, v: value, s: code points]; floats count in halves     *)
(* Limits: -1 stands for None.  A verdict is "true" or "invalid" (the        *)
(* validation error); anything else is wrong everywhere.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
White == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Blank(s) == SeqSet(s) \subseteq White
Numeric(a) == a.dt \notin {"str", "object"}

Dims(p, n) == (p.min = -1 \/ n >= p.min) /\ (p.max = -1 \/ n <= p.max)
Typed(p, a) == p.dtype = "" \/ p.dtype = a.dt
Finite(q) == SeqSet(q) \subseteq {"z", "n"}
Zero(q) == SeqSet(q) \subseteq {"z"}
VectorOK(p, a) == /\ a.kind = "nd" /\ Len(a.shape) = 1 /\ a.shape[1] > 0 /\ Numeric(a)
                  /\ Dims(p, a.shape[1]) /\ Typed(p, a) /\ Finite(a.en) /\ (p.zero \/ ~Zero(a.en))
Row(a, i) == SubSeq(a.en, (i - 1) * a.shape[2] + 1, i * a.shape[2])
VectorsOK(p, a) == /\ a.kind = "nd" /\ Len(a.shape) = 2 /\ a.shape[1] > 0 /\ a.shape[2] > 0 /\ Numeric(a)
                   /\ Dims(p, a.shape[2]) /\ Typed(p, a) /\ Finite(a.en)
                   /\ (p.zero \/ \A i \in 1..a.shape[1] : ~Zero(Row(a, i)))

(* configurations: key -> scalar *)
IsA(x, t) == CASE t = "int" -> x.t \in {"int", "bool"} [] t = "float" -> x.t \in {"float", "nan", "inf"}
               [] t = "number" -> x.t \in {"int", "bool", "float", "nan", "inf"} [] OTHER -> x.t = t
Ranged == {"int", "float", "npint", "npfloat", "nan", "inf"}
(* other values are not compared with a range: both verdicts are allowed for booleans *)
InRange(x, g) == IF x.t = "nan" THEN FALSE ELSE IF x.t = "inf" THEN FALSE
                 ELSE g[1] <= x.v /\ x.v <= g[2]
ConfigOK(p, c, lax) ==
  /\ p.required \in {<<"none">>} \/ SeqSet(p.required) \subseteq DOMAIN c
  /\ p.allowed \in {<<"none">>} \/ DOMAIN c \subseteq SeqSet(p.allowed)
  /\ \A k \in DOMAIN p.types \cap DOMAIN c : IsA(c[k], p.types[k])
  /\ \A k \in DOMAIN p.ranges \cap DOMAIN c :
       c[k].t \in Ranged \cup (IF lax THEN {} ELSE {"bool"}) => InRange(c[k], p.ranges[k])

Metrics == {"cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"}
KOK(x, max) == x.t \in {"int", "npint", "bool"} /\ x.v > 0 /\ (max = -1 \/ x.v <= max)
IdOK(x) == x.t = "int" \/ (x.t = "str" /\ ~Blank(x.s))
IdSure(x) == x.t \notin {"bool", "npint"}
SameId(x, y) == x.t = y.t /\ x.v = y.v /\ x.s = y.s
IdsOK(q) == /\ Len(q) > 0 /\ \A i \in 1..Len(q) : IdOK(q[i])
            /\ \A i, j \in 1..Len(q) : SameId(q[i], q[j]) => i = j

(* metadata values: nodes [t, kids, keys] of a table; TLC walks from node 1   *)
RECURSIVE Below(_, _, _)
Below(T, S, n) == IF n = 0 THEN S ELSE Below(T, S \cup UNION {SeqSet(T[x].kids) : x \in S}, n - 1)
Reach(T) == Below(T, {1}, Len(T))
Cyclic(T) == \E x \in Reach(T) : x \in Below(T, SeqSet(T[x].kids), Len(T))
MetaOK(T) == /\ T[1].t \in {"none", "dict"}
             /\ \A i \in 1..Len(T[1].keys) : T[1].keys[i] = "str"
             /\ \A x \in Reach(T) : /\ T[x].t \in {"none", "leaf", "list", "dict"}
                                    /\ SeqSet(T[x].keys) \subseteq {"str", "num", "none"}
             /\ ~Cyclic(T)

Says(r, ok) == r = (IF ok THEN "true" ELSE "invalid")
Good(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "vector" -> Says(e.r, VectorOK(e.p, e.a)) \/ (e.a.dt = "object" /\ e.r = "true" /\ VectorOK(e.p, [e.a EXCEPT !.dt = "float64"]) /\ Typed(e.p, e.a))
    [] e.op = "vectors" -> Says(e.r, VectorsOK(e.p, e.a)) \/ (e.a.dt = "object" /\ e.r = "true" /\ VectorsOK(e.p, [e.a EXCEPT !.dt = "float64"]) /\ Typed(e.p, e.a))
    [] e.op = "config" -> IF ~e.dict THEN e.r = "invalid" ELSE Says(e.r, ConfigOK(e.p, e.c, FALSE)) \/ Says(e.r, ConfigOK(e.p, e.c, TRUE))
    [] e.op = "metric" -> Says(e.r, e.t = "str" /\ e.m \in Metrics)
    [] e.op = "k" -> Says(e.r, KOK(e.x, e.max)) \/ (e.x.t \in {"bool", "npint"} /\ e.r = "invalid")
    [] e.op = "id" -> Says(e.r, IdOK(e.x)) \/ (~IdSure(e.x) /\ e.r \in {"true", "invalid"})
    [] e.op = "ids" -> Says(e.r, e.list /\ IdsOK(e.q))
    [] e.op = "meta" -> Says(e.r, MetaOK(e.tree))
    [] OTHER -> FALSE
=============================================================================
