----------------------------- MODULE QuantGen -----------------------------
(* Life cycle of a quantizer; every transition is printed (EMIT=1) and      *)
(* replayed on the real quantizers with concrete data.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE s      \* open, tr: which training set (0 = none), q: coded once since
Init == s = [open |-> FALSE, tr |-> 0, q |-> 0]
Ops == {[op |-> o] : o \in {"init", "close", "stats", "badtrain", "badquant", "dist", "search"}}
       \cup {[op |-> "train", t |-> t] : t \in 1..3}
       \cup {[op |-> "quant", n |-> n] : n \in 0..2}
Step(o) ==
  CASE o.op = "init" -> [open |-> TRUE, tr |-> 0, q |-> 0]
    [] o.op = "close" -> [open |-> FALSE, tr |-> 0, q |-> 0]
    [] o.op = "train" -> IF s.open THEN [open |-> TRUE, tr |-> o.t, q |-> 0] ELSE s
    [] o.op = "quant" -> IF s.open /\ s.tr > 0 THEN [s EXCEPT !.q = 1] ELSE s
    [] OTHER -> s
Next == \E o \in Ops : s' = Step(o) /\
          IF IOEnv.EMIT = "1" THEN PrintT("@@E " \o ToJson(<<s, o, s'>>)) ELSE TRUE
TypeOK == (s.tr > 0 => s.open) /\ (s.q > 0 => s.tr > 0)
=============================================================================
