---------------------------- MODULE RegistryGen ----------------------------
(* All histories of a registry with few names; adding, replacing and         *)
(* removing a parser changes only the selections it concerns.                *)
EXTENDS Registry, Json, IOUtils
CONSTANT Names, Classes
VARIABLES st, last
Files == {txt \o txt, <<97>> \o txt, <<97, 46, 90, 73, 80>>, <<97>> \o pdf, <<46, 116, 120, 116>>, <<97, 46, 100, 105, 114, 47, 98>>}
Sel(s) == [f \in Files |-> {s.cur[n] : n \in Chosen(s, f, "")}]
Init == st = Start([n \in Names \cap Known |-> "c" \o n]) /\ last = <<"none", "", {}>>
Show(s) == [ini |-> s.ini, cur |-> s.cur, cls |-> s.cls]
Emit(op) == IOEnv.EMIT # "1" \/ PrintT("@@E " \o ToJson(<<Show(st), op, Show(st')>>))
Note(k, n) == last' = <<k, n, Sel(st)>>
Step(op) == op \in [op : {"x"}]
Next ==
  \/ st' = Initialize(st) /\ Note("init", "") /\ Emit([op |-> "init"])
  \/ st' = Close(st) /\ Note("close", "") /\ Emit([op |-> "close"])
  \/ \E n \in Names, c \in Classes :
       st' = Add(st, n, c, "t" \o c) /\ Note(IF c \in Broken THEN "broken" ELSE "add", n)
       /\ Emit([op |-> "add", name |-> n, cls |-> c])
  \/ \E n \in Names : st' = Remove(st, n) /\ Note("remove", n) /\ Emit([op |-> "remove", name |-> n])
Local == [][
  /\ last'[1] = "broken" => Sel(st') = Sel(st)
  /\ last'[1] = "remove" => \A f \in Files : last'[2] \in DOMAIN st.cur =>
       (st.cur[last'[2]] \in Sel(st)[f] \/ Sel(st')[f] = Sel(st)[f])
  /\ last'[1] = "add" => \A f \in Files :
       Sel(st')[f] = Sel(st)[f] \/ st'.cur[last'[2]] \in Sel(st')[f]
       \/ (last'[2] \in DOMAIN st.cur /\ st.cur[last'[2]] \in Sel(st)[f])
  ]_st
Sound ==
  /\ \A f \in Files : \A n \in Chosen(st, f, "") : Can(st, n, f)
  /\ st.ini => \A f \in Files : (Chosen(st, f, "") = {}) = (Suited(st, f) = {})
  /\ ~st.ini => AllFormats(st) = {}
View == <<st>>
=============================================================================
