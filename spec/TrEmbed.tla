------------------------------ MODULE TrEmbed ------------------------------
(* Validation of recorded embedding histories against Embed.                *)
EXTENDS Embed, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, tx, dead
TInit == l = 0 /\ st = <<>> /\ tx = <<>> /\ dead = TRUE
TNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "reset" THEN st' = [ini |-> FALSE, norm |-> e.norm, dim |-> e.dim, known |-> e.known] /\ tx' = e.tx /\ dead' = FALSE
     ELSE LET bad == ~dead /\ ~Good(st, tx, e) IN
          /\ dead' = (dead \/ bad)
          /\ st' = IF dead THEN st ELSE After(st, e)
          /\ tx' = tx
          /\ bad => PrintT("@@BAD " \o ToString(l + 1) \o " " \o ToString(st))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
