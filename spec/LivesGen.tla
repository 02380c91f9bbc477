------------------------------ MODULE LivesGen ------------------------------
(* The lives of two components on the same data (a directory), of which at   *)
(* most one is open at a time.  An open component can be left behind         *)
(* unclosed; it must be initialized before it is used again.  Every          *)
(* transition is printed (EMIT=1) and replayed on real components.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES cur, st
vars == <<cur, st>>
Init == cur = 1 /\ st = [i \in 1..2 |-> "new"]
Show == [cur |-> cur, st |-> st]
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<Show, [op |-> op], Show'>>))
Start == st' = [st EXCEPT ![cur] = "open"] /\ UNCHANGED cur /\ Emit("init")
Close == st[cur] # "left" /\ st' = [st EXCEPT ![cur] = "closed"] /\ UNCHANGED cur /\ Emit("close")
Use == st[cur] = "open" /\ UNCHANGED vars /\ Emit("use")
Probe == st[cur] \in {"new", "closed"} /\ UNCHANGED vars /\ Emit("probe")
Swap == /\ cur' = 3 - cur
        /\ st' = [st EXCEPT ![cur] = IF @ = "open" THEN "left" ELSE @]
        /\ Emit("swap")
Fresh == st' = [st EXCEPT ![cur] = "new"] /\ UNCHANGED cur /\ Emit("fresh")
Next == Start \/ Close \/ Use \/ Probe \/ Swap \/ Fresh
OneOpen == Cardinality({i \in 1..2 : st[i] = "open"}) <= 1 /\ \A i \in 1..2 : st[i] = "open" => i = cur
=============================================================================
