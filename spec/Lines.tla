-------------------------------- MODULE Lines -------------------------------
(* C20: lines and columns, as a scan of the text.  The definitions by        *)
(* counting in Text (which Engine uses for messages) must agree.             *)
EXTENDS Text, Cases

VARIABLES cas, pos, line, start, seen, told
vars == <<cas, pos, line, start, seen, told>>

Alphabet == << <<97>>, <<10>>, <<13>>, <<195, 169>> >>
Size == 1 + WordCount(4, IF Big THEN 7 ELSE 5)
RECURSIVE Glue(_)
Glue(w) == IF w = <<>> THEN <<>> ELSE Alphabet[w[1]] \o Glue(Tail(w))
CaseNr(i) == [id |-> i + 1, m |-> "lines", src |-> IF i = 0 THEN <<>> ELSE Glue(Word(4, i - 1)),
              file |-> IF i % 3 = 0 THEN <<>> ELSE <<102, 46>>, msg |-> IF i % 2 = 0 THEN <<98, 97, 100>> ELSE <<195, 169>>]
ASSUME Announce(Size)

Case(k) == IF FromFile THEN FileCases[k] ELSE CaseNr(IndexOf(Size, k))
Here(p, l, s) == [p |-> p, l |-> l, c |-> p - s + 1]
Init ==
  /\ \E k \in 1..(IF FromFile THEN Len(FileCases) ELSE ChosenOf(Size)) : cas = Case(k)
  /\ pos = 0 /\ line = 1 /\ start = 0 /\ seen = <<Here(0, 1, 0)>> /\ told = FALSE

Unit == IF cas.src[pos + 1] = CR /\ pos + 1 < Len(cas.src) /\ cas.src[pos + 2] = LF THEN 2 ELSE CharLen(cas.src[pos + 1])
Breaks == cas.src[pos + 1] \in {CR, LF}
Read ==
  /\ pos < Len(cas.src)
  /\ LET p == pos + Unit
         l == IF Breaks THEN line + 1 ELSE line
         s == IF Breaks THEN p ELSE start
     IN pos' = p /\ line' = l /\ start' = s /\ seen' = Append(seen, Here(p, l, s))
  /\ UNCHANGED <<cas, told>>

Pair(x, y) ==
  LET cols == <<x.c, Max2(x.c, y.c)>>
  IN <<x.p, y.p, x.l, y.l, cols[1], cols[2],
       <<69, 114, 114, 111, 114, 58, 32>> \o cas.file \o <<64, 91>> \o Span(<<x.l, y.l>>) \o <<58>> \o Span(cols) \o <<93, 58, 32>> \o cas.msg,
       \* the text of the range, the way it is shown, and the range of the same length after its end
       Slice(cas.src, x.p, y.p), <<91>> \o NumberText(x.p) \o <<45>> \o NumberText(y.p) \o <<93>>, <<y.p, y.p + y.p - x.p>> >>
RECURSIVE Row(_, _)
Row(i, j) == IF j > Len(seen) THEN <<>> ELSE <<Pair(seen[i], seen[j])>> \o Row(i, j + 1)
Tell ==
  /\ pos = Len(cas.src) /\ ~told
  /\ Publish(cas, [i \in 1..Len(seen) |-> Row(i, i)])
  /\ told' = TRUE /\ UNCHANGED <<cas, pos, line, start, seen>>

Next == Read \/ Tell

CountingAgrees == line = Line(cas.src, pos) /\ start = LineStart(cas.src, pos)
MessagesAgree ==
  told => \A i \in 1..Len(seen) : \A j \in {i, Len(seen)} :
    Pair(seen[i], seen[j])[7] = LocatedMessage(cas.src, cas.file, cas.msg, seen[i].p, seen[j].p)
\* positions go forward: never to an earlier line, and to the right within a line
Forward ==
  \A i \in 1..(Len(seen) - 1) :
    \/ seen[i + 1].l = seen[i].l /\ seen[i + 1].c > seen[i].c
    \/ seen[i + 1].l = seen[i].l + 1 /\ seen[i + 1].c = 1
View == <<cas.id, pos, told>>
=============================================================================
