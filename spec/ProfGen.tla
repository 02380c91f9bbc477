------------------------------ MODULE ProfGen ------------------------------
(* Measured blocks, nested and left normally or by an exception, which may   *)
(* pass through several of them.  Finally = FALSE: a block left by an        *)
(* exception is not recorded; Recorded fails then.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Names, Depth, Cap, Finally
VARIABLES stack, count, begun, fly
vars == <<stack, count, begun, fly>>
Zero == [n \in Names |-> 0]
Init == stack = <<>> /\ count = Zero /\ begun = Zero /\ fly = FALSE
Show == [stack |-> stack, count |-> count, fly |-> fly]
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<Show, op, Show'>>))
Enter(n) == /\ ~fly /\ Len(stack) < Depth /\ begun[n] < Cap
            /\ stack' = Append(stack, n) /\ begun' = [begun EXCEPT ![n] = @ + 1] /\ UNCHANGED <<count, fly>>
            /\ Emit([op |-> "enter", n |-> n])
Pop(rec) == /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ count' = IF rec THEN [count EXCEPT ![stack[Len(stack)]] = @ + 1] ELSE count
            /\ UNCHANGED begun
Leave == ~fly /\ Pop(TRUE) /\ UNCHANGED fly /\ Emit([op |-> "leave", n |-> stack[Len(stack)]])
Raise == /\ Pop(Finally) /\ fly' = (Len(stack) > 1) /\ Emit([op |-> "raise", n |-> stack[Len(stack)]])
Catch == fly /\ fly' = FALSE /\ UNCHANGED <<stack, count, begun>> /\ Emit([op |-> "catch", n |-> ""])
Next == Leave \/ Raise \/ Catch \/ \E n \in Names : Enter(n)
Open(n) == Cardinality({i \in 1..Len(stack) : stack[i] = n})
Recorded == \A n \in Names : count[n] + Open(n) = begun[n]
=============================================================================
