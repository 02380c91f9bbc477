------------------------------ MODULE Logging ------------------------------
(* Log messages.  Severities are numbers (10 debug ... 50 critical).        *)
(* Until logging is set up, a logger asked for with get_logger shows what   *)
(* is at or above the level it was first asked for with; afterwards one     *)
(* level and one set of handlers, those of the last setup, serve everyone.  *)
(* Every message due is shown once on the console and once in the log file  *)
(* (if there is one), any other not at all.                                 *)
(* st: conf = <<>> or <<[lev, file]>>; got: logger -> level                 *)
(* emit events: via (logger), sev, console (how often it came up there),    *)
(* file (in the log file and its backups), other (in any other file),       *)
(* shows (the line has the format, the name, the level and all the data),   *)
(* sized (files and backups keep to their limits)                           *)
EXTENDS Integers, Sequences, TLC
Init0 == [conf |-> <<>>, got |-> <<>>]
Standard == 20
Due(st, e) ==
  e.sev >= (IF st.conf # <<>> THEN st.conf[1].lev
            ELSE IF e.via \in DOMAIN st.got THEN st.got[e.via] ELSE Standard)
Times(b) == IF b THEN 1 ELSE 0
Good(st, e) ==
  CASE e.op \in {"get", "setup"} -> e.r = "ok"
    [] e.op = "emit" ->
         /\ e.r = "ok" /\ e.sized /\ e.other = 0
         /\ e.console = Times(Due(st, e))
         /\ e.file = Times(Due(st, e) /\ st.conf # <<>> /\ st.conf[1].file)
         /\ Due(st, e) => e.shows
    [] OTHER -> FALSE
First(st, n, lev) ==
  IF st.conf # <<>> \/ n \in DOMAIN st.got THEN st
  ELSE [st EXCEPT !.got = [x \in DOMAIN st.got \cup {n} |-> IF x = n THEN lev ELSE st.got[x]]]
After(st, e) ==
  CASE e.op = "get" -> First(st, e.via, e.lev)
    [] e.op = "emit" -> First(st, e.via, Standard)
    [] e.op = "setup" /\ e.r = "ok" -> [st EXCEPT !.conf = <<[lev |-> e.lev, file |-> e.hasfile]>>]
    [] OTHER -> st
=============================================================================
