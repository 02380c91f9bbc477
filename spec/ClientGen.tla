------------------------------ MODULE ClientGen ------------------------------
(* Initialize and close of a client with failing parts, and requests in      *)
(* between; every transition is printed (EMIT=1) and replayed.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Parts
VARIABLES open, any       \* any: has something been stored
vars == <<open, any>>
Init == open = "no" /\ any = FALSE
Show == [open |-> open, any |-> any]
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<Show, op, Show'>>))
Start == open' = "yes" /\ UNCHANGED any /\ Emit([op |-> "init", fail |-> ""])
StartFails(p) == /\ open' = (IF open = "no" THEN "no" ELSE "unknown") /\ UNCHANGED any
                 /\ Emit([op |-> "init", fail |-> p])
Stop == open' = "no" /\ UNCHANGED any /\ Emit([op |-> "close", fail |-> ""])
StopFails(p) == open' = "unknown" /\ UNCHANGED any /\ Emit([op |-> "close", fail |-> p])
New == open' = "no" /\ UNCHANGED any /\ Emit([op |-> "new", fail |-> ""])
Ask(o) == /\ open # "unknown" /\ (open = "yes" /\ o \in {"update", "delete"} => any)
          /\ UNCHANGED open /\ any' = (any \/ (open = "yes" /\ o = "insert"))
          /\ Emit([op |-> o, fail |-> ""])
Next == Start \/ Stop \/ New \/ \E p \in Parts : StartFails(p) \/ StopFails(p)
        \/ \E o \in {"insert", "search", "update", "delete", "stats"} : Ask(o)
TypeOK == open \in {"yes", "no", "unknown"}
=============================================================================
