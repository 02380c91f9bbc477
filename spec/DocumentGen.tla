----------------------------- MODULE DocumentGen -----------------------------
(* All small text files and page sequences: laws of the specification of a   *)
(* document, a reader that goes over the pages once (the shape of the code), *)
(* and the documents to put through the real parsers.                        *)
EXTENDS Document, Json, IOUtils
CONSTANTS MaxChars, MaxPages, Skips
VARIABLES kind, doc, at, out, info
vars == <<kind, doc, at, out, info>>
Char == {97, -32, -10, -13}
Page == {[t |-> x, ok |-> TRUE] : x \in {<<>>, <<-32>>, <<97>>, <<-32, 98, -10>>}} \cup {[t |-> <<97>>, ok |-> FALSE]}
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ \/ kind = "text" /\ doc \in UpTo(Char, MaxChars)
           \/ kind = "pages" /\ doc \in UpTo(Page, MaxPages)
        /\ at = 0 /\ out = <<>> /\ info = <<>>
        /\ (IOEnv.EMIT # "1" \/ PrintT("@@I " \o ToJson(<<kind, doc>>)))
(* one step of the reader: the next page; Skips says that pages without text *)
(* leave no trace in what is joined                                          *)
Read ==
  /\ kind = "pages" /\ at < Len(doc)
  /\ at' = at + 1
  /\ LET p == doc[at + 1]  take == p.ok /\ ~Blank(p.t) IN
     /\ out' = IF take \/ (p.ok /\ ~Skips) THEN Append(out, p.t) ELSE out
     /\ info' = IF take THEN Append(info, <<at + 1, Len(p.t)>>) ELSE info
  /\ UNCHANGED <<kind, doc>>
Next == Read
Want == Which(doc, LAMBDA i : doc[i].ok /\ ~Blank(doc[i].t))
(* the reader delivers what the specification wants                          *)
Reads == kind = "pages" /\ at = Len(doc) =>
  LET e == [doc |-> doc, about |-> "",
            got |-> [text |-> Join(out, <<-10, -10>>), n |-> Len(doc), withtext |-> Len(info), info |-> info,
                     reading |-> 0, about |-> ""]] IN PdfFaults(e) = {}
(* lengths of the pages and of the text belong together                      *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Lengths == kind = "pages" => LET I == Want IN
  Len(Join([k \in 1..Len(I) |-> doc[I[k]].t], <<-10, -10>>)) =
    Sum([k \in 1..Len(I) |-> Len(doc[I[k]].t)]) + (IF I = <<>> THEN 0 ELSE 2 * (Len(I) - 1))
(* paragraphs, by cutting the text at each pair of line ends from the left   *)
RECURSIVE Pieces(_)
Pieces(t) == LET C == {i \in 1..(Len(t) - 1) : t[i] = -10 /\ t[i + 1] = -10} IN
             IF C = {} THEN 1 ELSE 1 + Pieces(SubSeq(t, MinS(C) + 2, Len(t)))
Lines == kind = "text" => LET t == Newlines(doc) IN
  /\ Newlines(t) = t
  /\ \A i \in 1..Len(t) : t[i] # -13
  /\ Paragraphs(t) = Pieces(t)
  /\ Strip(Strip(t)) = Strip(t)
  /\ Words(t) = Words(Strip(t))
=============================================================================
