------------------------------- MODULE Linear -------------------------------
(* Linearizability against a sequential specification.                      *)
(* Step(c, s, e): successors of the abstract state s by the completed       *)
(* operation e (with its arguments and its observed result) under the       *)
(* configuration c.  A configuration of the checker is [st, done]: an       *)
(* abstract state and the pending calls that have already taken effect.     *)
EXTENDS Integers, FiniteSets
CONSTANT Step(_, _, _)

Begin(states) == {[st |-> s, done |-> {}] : s \in states}
One(c, pend, x) ==
  UNION {{[st |-> s, done |-> x.done \cup {t}] : s \in Step(c, x.st, pend[t])} :
         t \in DOMAIN pend \ x.done}
RECURSIVE Closure(_, _, _)
Closure(c, pend, X) ==       \* all ways to let pending calls take effect
  LET Y == UNION {One(c, pend, x) : x \in X} \ X
  IN IF Y = {} THEN X ELSE Closure(c, pend, X \cup Y)
(* thread t returns: its call must have taken effect by now *)
Return(c, pend, X, t) ==
  {[x EXCEPT !.done = @ \ {t}] : x \in {y \in Closure(c, pend, X) : t \in y.done}}
=============================================================================
