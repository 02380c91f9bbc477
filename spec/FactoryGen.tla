----------------------------- MODULE FactoryGen -----------------------------
(* Who shares configuration objects with whom: published tables, the        *)
(* objects handed out and the ones inside created databases.  Copies = TRUE *)
(* is the design; with FALSE the objects are shared and Published fails.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Copies
Names == {"t1", "t2", "c1"}
VARIABLES pub, held
(* pub[n]: the published value; held: names of which the caller has a copy  *)
Init == pub = [n \in Names |-> "orig"] /\ held = {}
Emit(a, n, h2) == IOEnv.EMIT # "1" \/
  PrintT("@@E " \o ToJson(<<held, [op |-> a, n |-> n], h2>>))
Take(n) == held' = held \cup {n} /\ UNCHANGED pub /\ Emit("take", n, held')
Spoil(n) == n \in held /\ held' = held
            /\ pub' = (IF Copies THEN pub ELSE [pub EXCEPT ![n] = "spoiled"])
            /\ Emit("spoil", n, held')
Drop(n) == n \in held /\ held' = held \ {n} /\ UNCHANGED pub /\ Emit("drop", n, held')
Next == \E n \in Names : Take(n) \/ Spoil(n) \/ Drop(n)
Published == \A n \in Names : pub[n] = "orig"
=============================================================================
