---------------------------- MODULE ValidateGen ----------------------------
(* All small arrays and limits: laws of the array validators, and the        *)
(* inputs to put through the code.                                           *)
EXTENDS Validate, Json, IOUtils
CONSTANT MaxLen
VARIABLES a, p
Entry == {"z", "n", "nan", "inf"}
Seqs(n) == UNION {[1..k -> Entry] : k \in 0..n}
Vecs == {[kind |-> "nd", shape |-> <<Len(q)>>, dt |-> d, en |-> q] : q \in Seqs(MaxLen), d \in {"float64", "float32"}}
Mats == {[kind |-> "nd", shape |-> <<Len(q) \div 2, 2>>, dt |-> "float64", en |-> q] : q \in {s \in Seqs(4) : Len(s) % 2 = 0}}
Params == [min : {-1, 0, 1, 2, 3}, max : {-1, 1, 2}, dtype : {"", "float64"}, zero : BOOLEAN]
Init == a \in Vecs \cup Mats /\ p \in Params /\ (IOEnv.EMIT # "1" \/ PrintT("@@I " \o ToJson(<<a, p>>)))
Next == UNCHANGED <<a, p>>
Two == Len(a.shape) = 2
RowOf(i) == [a EXCEPT !.shape = <<a.shape[2]>>, !.en = Row(a, i)]
(* a batch is accepted iff it has rows and each of them is acceptable alone *)
Batchwise == Two => (VectorsOK(p, a) = (a.shape[1] > 0 /\ \A i \in 1..a.shape[1] : VectorOK(p, RowOf(i))))
Weaker == LET ok(x) == IF Two THEN VectorsOK(x, a) ELSE VectorOK(x, a) IN
          ok(p) => ok([p EXCEPT !.min = -1]) /\ ok([p EXCEPT !.max = -1]) /\ ok([p EXCEPT !.zero = TRUE]) /\ ok([p EXCEPT !.dtype = ""])
Safe == (VectorOK(p, a) \/ VectorsOK(p, a)) => Finite(a.en) /\ Len(a.en) > 0
=============================================================================
