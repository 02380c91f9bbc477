----------------------------- MODULE MonitorAlg -----------------------------
(* The resource monitor: a client starts and stops it, each start runs a     *)
(* sampling thread while the flag is up.  Join = TRUE: stopping waits for    *)
(* the thread; Guard = TRUE: starting a running monitor does nothing.        *)
(* Without either, samples arrive after stop or two threads sample.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Join, Guard, MaxStarts
VARIABLES flag, alive, waiting, samples, frozen, starts
vars == <<flag, alive, waiting, samples, frozen, starts>>
Init == flag = FALSE /\ alive = {} /\ waiting = FALSE /\ samples = 0 /\ frozen = -1 /\ starts = 0
Begin == /\ ~waiting /\ starts < MaxStarts
         /\ IF Guard /\ flag THEN UNCHANGED <<alive, frozen, starts>>
            ELSE alive' = alive \cup {starts} /\ starts' = starts + 1 /\ frozen' = -1
         /\ flag' = TRUE /\ UNCHANGED <<waiting, samples>>
Stop == ~waiting /\ flag /\ flag' = FALSE /\ waiting' = TRUE /\ UNCHANGED <<alive, samples, frozen, starts>>
Stopped == waiting /\ (Join => alive = {}) /\ waiting' = FALSE /\ frozen' = samples /\ UNCHANGED <<flag, alive, samples, starts>>
Sample(t) == t \in alive /\ flag /\ samples < 6 /\ samples' = samples + 1 /\ UNCHANGED <<flag, alive, waiting, frozen, starts>>
(* a thread that has seen the flag up takes one more sample before it looks again *)
Late(t) == t \in alive /\ ~flag /\ samples < 6 /\ samples' = samples + 1 /\ alive' = alive \ {t} /\ UNCHANGED <<flag, waiting, frozen, starts>>
Exit(t) == t \in alive /\ ~flag /\ alive' = alive \ {t} /\ UNCHANGED <<flag, waiting, samples, frozen, starts>>
Next == Begin \/ Stop \/ Stopped \/ \E t \in 0..MaxStarts : Sample(t) \/ Late(t) \/ Exit(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Stopped) /\ \A t \in 0..MaxStarts : WF_vars(Exit(t))
OneThread == Cardinality(alive) <= 1
Frozen == (frozen >= 0 /\ ~flag) => samples = frozen
StopEnds == waiting ~> ~waiting
=============================================================================
