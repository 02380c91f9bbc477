---------------------------- MODULE PersistImpl ----------------------------
(* Implementation-shaped model of the incremental manager (and, restricted  *)
(* to Whats = {"index"}, of the tensor manager): files renamed into place,  *)
(* checkpoint info, a log with entries that can be cut off, a counter that  *)
(* is recovered from all of them.  Crashes and I/O errors between any two   *)
(* steps.                                                                   *)
(* With Atomic = TRUE operations are single steps and every transition is   *)
(* printed: the behaviours replayed on the real managers.                   *)
EXTENDS Persist, Json, IOUtils
CONSTANTS Vals, Names, Interval, MaxCnt, Atomic, Whats
VARIABLES cps,      \* checkpoint files: number -> value
          files,    \* name -> <<what, value>>
          info,     \* checkpoint.json: <<last, count>>
          log,      \* operation numbers; -1 an entry cut off
          cnt, last, open,   \* the manager object
          pend,     \* operation in progress
          abs,      \* set of abstract states (Persist) compatible so far
          top       \* largest acknowledged operation number
vars == <<cps, files, info, log, cnt, last, open, pend, abs, top>>
C == [kind |-> "inc"]
None == [op |-> "none"]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
PutI(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

Init == /\ cps = [x \in {} |-> 0] /\ files = Nothing /\ info = <<0, 0>> /\ log = <<>>
        /\ cnt = 0 /\ last = 0 /\ open = FALSE /\ pend = None /\ abs = PInit /\ top = -1
St == [cps |-> cps, files |-> files, info |-> info, log |-> log, cnt |-> cnt,
       last |-> last, open |-> open]
Emit(op) == IF IOEnv.EMIT = "1" THEN PrintT("@@E " \o ToJson(<<St, op, St'>>)) ELSE TRUE

(* what recovery makes of the disk *)
RecLog == SelectSeq(log, LAMBDA x : x # -1)
Used == {-1} \cup SeqSet(RecLog) \cup DOMAIN cps
RecCnt == LET m == Max(Used) + 1 IN IF info[2] > m THEN info[2] ELSE m
Latest == IF DOMAIN cps = {} THEN 0 ELSE cps[Max(DOMAIN cps)]
Read(e) == IF e.what = "state" THEN Latest
           ELSE IF e.name \in DOMAIN files /\ files[e.name][1] = e.what
                THEN files[e.name][2] ELSE 0

SaveArg == [what : Whats, name : Names, v : Vals]
Ev(a, r, f) == [op |-> "save", what |-> a.what, name |-> a.name, v |-> a.v, r |-> r, fault |-> f]
AbsDo(e) == abs' = UNION {Step(C, s, e) : s \in abs}
DoFile(a) == IF a.what = "state" THEN cps' = PutI(cps, cnt, a.v) /\ UNCHANGED files
             ELSE files' = PutN(files, a.name, <<a.what, a.v>>) /\ UNCHANGED cps

Begin == \E a \in SaveArg :
  /\ ~Atomic /\ open /\ pend = None /\ cnt < MaxCnt
  /\ pend' = [op |-> "save", a |-> a, pc |-> "file"]
  /\ UNCHANGED <<cps, files, info, log, cnt, last, open, abs, top>>
StepFile ==
  /\ pend # None /\ pend.pc = "file"
  /\ DoFile(pend.a)
  /\ pend' = [pend EXCEPT !.pc = IF pend.a.what = "state" THEN "info" ELSE "log"]
  /\ UNCHANGED <<info, log, cnt, last, open, abs, top>>
StepInfo ==
  /\ pend # None /\ pend.pc = "info"
  /\ last' = cnt /\ info' = <<cnt, cnt>>
  /\ pend' = [pend EXCEPT !.pc = "log"]
  /\ UNCHANGED <<cps, files, log, cnt, open, abs, top>>
StepLog ==
  /\ pend # None /\ pend.pc = "log"
  /\ log' = Append(log, cnt) /\ cnt' = cnt + 1
  /\ pend' = [pend EXCEPT !.pc = "interval"]
  /\ UNCHANGED <<cps, files, info, last, open, abs, top>>
TearLog ==        \* only the beginning of the entry reaches the disk, then a crash
  /\ pend # None /\ pend.pc = "log"
  /\ log' = Append(log, -1)
  /\ open' = FALSE /\ pend' = None
  /\ abs' = UNION {Step(C, s, [op |-> "crash", in |-> Ev(pend.a, "", FALSE)]) : s \in abs}
  /\ UNCHANGED <<cps, files, info, cnt, last, top>>
StepInterval ==
  /\ pend # None /\ pend.pc = "interval"
  /\ IF cnt - last >= Interval
     THEN last' = cnt /\ info' = <<cnt, cnt>> ELSE UNCHANGED <<last, info>>
  /\ pend' = [pend EXCEPT !.pc = "end"]
  /\ UNCHANGED <<cps, files, log, cnt, open, abs, top>>
End ==
  /\ pend # None /\ pend.pc = "end"
  /\ Assert(cnt - 1 > top, <<"operation number used twice", cnt, top>>)
  /\ top' = cnt - 1
  /\ AbsDo(Ev(pend.a, "true", FALSE))
  /\ pend' = None
  /\ UNCHANGED <<cps, files, info, log, cnt, last, open>>
Fail ==           \* an I/O error before the next step
  /\ pend # None /\ pend.pc \in {"file", "info", "log", "interval"}
  /\ AbsDo(Ev(pend.a, "err", TRUE))
  /\ pend' = None
  /\ UNCHANGED <<cps, files, info, log, cnt, last, open, top>>
Crash ==
  /\ pend # None
  /\ abs' = UNION {Step(C, s, [op |-> "crash", in |-> Ev(pend.a, "", FALSE)]) : s \in abs}
  /\ open' = FALSE /\ pend' = None
  /\ UNCHANGED <<cps, files, info, log, cnt, last, top>>

Save == \E a \in SaveArg :
  /\ Atomic /\ open /\ cnt < MaxCnt
  /\ DoFile(a)
  /\ log' = Append(log, cnt) /\ cnt' = cnt + 1
  /\ LET l1 == IF a.what = "state" THEN cnt ELSE last
         i1 == IF a.what = "state" THEN <<cnt, cnt>> ELSE info
     IN IF cnt' - l1 >= Interval THEN last' = cnt' /\ info' = <<cnt', cnt'>>
        ELSE last' = l1 /\ info' = i1
  /\ AbsDo(Ev(a, "true", FALSE)) /\ top' = cnt
  /\ UNCHANGED <<open, pend>>
  /\ Emit(Ev(a, "true", FALSE))
Stop ==
  /\ open /\ pend = None
  /\ open' = FALSE /\ AbsDo([op |-> "new"])
  /\ UNCHANGED <<cps, files, info, log, cnt, last, pend, top>>
  /\ Emit([op |-> "restart"])
Open ==
  /\ ~open
  /\ open' = TRUE /\ log' = RecLog /\ cnt' = RecCnt /\ last' = info[1]
  /\ AbsDo([op |-> "init", r |-> "ok"])
  /\ UNCHANGED <<cps, files, info, pend, top>>
  /\ Emit([op |-> "open"])
Next == Begin \/ StepFile \/ StepInfo \/ StepLog \/ TearLog \/ StepInterval \/ End \/ Fail
        \/ Crash \/ Save \/ Stop \/ Open

Compatible == abs # {}
(* every read gives a value some compatible abstract state allows *)
Reads == (open /\ pend = None) =>
  \A a \in [what : Whats, name : Names] :
    LET v == Read(a)
        e == [op |-> "load", what |-> a.what, name |-> a.name, v |-> v, fault |-> FALSE,
              r |-> IF v = 0 THEN "none" ELSE "val"]
    IN \E s \in abs : Step(C, s, e) # {}
Fresh == open => cnt > top /\ \A n \in SeqSet(log) : n < cnt
LogOrdered == LET q == RecLog IN \A i \in 1..Len(q) - 1 : q[i] < q[i + 1]
=============================================================================
