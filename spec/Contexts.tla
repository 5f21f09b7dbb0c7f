------------------------------ MODULE Contexts ------------------------------
(* C32: parse contexts.  Each looks at its own window of the same source;    *)
(* a copy has its own window, name, tokens and debug level from then on,     *)
(* but shares the variables.                                                 *)
EXTENDS Regex, Cases

VARIABLES cas, cx, var, k, seen
vars == <<cas, cx, var, k, seen>>

Srcs == << <<97, 98, 97, 98>>, <<97, 195, 169, 97, 10>>, <<195, 169, 195, 169>>, <<>> >>
Op(o, c, a, b) == [o |-> o, c |-> c, a |-> a, b |-> b]
Ops ==
  << Op("start", 1, 1, 0), Op("start", 1, 3, 0), Op("end", 1, 3, 0), Op("end", 1, 4, 0), Op("start", 2, 2, 0), Op("end", 2, 1, 0), Op("offset", 1, 1, 3),
     Op("offset", 2, 0, 4), Op("offset", 1, 3, 3), Op("offset", 1, 0, 1), Op("clone", 1, 1, 0), Op("clone", 2, 2, 0), Op("push", 1, 1, 0), Op("push", 1, 2, 0),
     Op("push", 2, 3, 0), Op("pop", 1, 0, 0), Op("pop", 2, 0, 0), Op("debug", 1, 1, 0), Op("debug", 2, 2, 0), Op("debug", 1, 0, 0),
     Op("var", 1, 1, 0), Op("var", 2, 2, 0) >>
Long == IF Big THEN 4 ELSE 3
Size == WordCount(Len(Ops), Long) * Len(Srcs)
CaseNr(i) ==
  [id |-> i + 1, m |-> "contexts", src |-> Srcs[(i % Len(Srcs)) + 1],
   ops |-> LET w == Word(Len(Ops), i \div Len(Srcs)) IN [j \in 1..Len(w) |-> Ops[w[j]]]]
ASSUME Announce(Size)
Case(j) == IF FromFile THEN FileCases[j] ELSE CaseNr(IndexOf(Size, j))

MaxContexts == 4
New(src, i) == [lo |-> 0, hi |-> Len(src), n |-> 0, stk |-> <<>>, dbg |-> 0, own |-> i]
\* The second context is made with a window of its own, from the start
Init ==
  /\ \E j \in 1..(IF FromFile THEN Len(FileCases) ELSE ChosenOf(Size)) : cas = Case(j)
  /\ cx = << New(cas.src, 1), [New(cas.src, 2) EXCEPT !.hi = 0] >>
  /\ var = [i \in 1..2 |-> 0]   \* contexts 1 and 2 have variables of their own; a copy those of its original
  /\ k = 0 /\ seen = <<>>

Readable(c) == IsWindow(cas.src, c.lo, c.hi)

\* What is looked for: texts, and regular expressions
Texts == << <<97>>, <<97, 98>>, <<195, 169>>, <<98>>, <<>>, <<97, 195, 169, 97, 10>>, <<10>> >>
One(a, b, mn, mx) == [t |-> "set", neg |-> FALSE, rs |-> <<<<a, b>>>>, min |-> mn, max |-> mx, lazy |-> FALSE]
Regexes ==
  << << <<One(97, 98, 1, 0 - 1)>> >>,
     << <<One(98, 98, 1, 1)>> >>,
     << <<One(97, 97, 0, 1)>> >>,
     << <<One(233, 233, 1, 2), [t |-> "eol"]>>, <<[t |-> "bol"], One(97, 97, 1, 1), [t |-> "eol"]>> >>,
     << <<One(10, 10, 1, 1)>>, <<One(97, 97, 1, 1), One(98, 98, 1, 1)>>, <<One(97, 97, 1, 1)>> >> >>

Nothing == <<0 - 1, 0 - 1>>
TextAt(c, p, x) == IF x # <<>> /\ p < c.hi /\ StartsAt(cas.src, p, c.hi, x) THEN <<p, p + Len(x)>> ELSE Nothing
RegexAt(c, x) == LET e == RegexMatch(cas.src, c.lo, c.hi, x) IN IF e = 0 - 1 THEN Nothing ELSE <<c.lo, e>>

\* At most n bytes of the window, and the rest of the last character
RECURSIVE Whole(_, _)
Whole(src, p) == IF IsBoundary(src, p) THEN p ELSE Whole(src, p + 1)
Shown(c, n) == SubSeq(cas.src, c.lo + 1, Whole(cas.src, Min2(c.lo + n, c.hi)))

\* At any place of the source, wherever the window begins
Places == SelectSeq([p \in 1..(Len(cas.src) + 1) |-> p - 1], LAMBDA p : IsBoundary(cas.src, p))

Sight(c, vs) ==
  [w |-> <<c.lo, c.hi>>, n |-> c.n, top |-> [j \in 1..Len(c.stk) |-> c.stk[Len(c.stk) + 1 - j]], dbg |-> c.dbg, on |-> c.dbg > 0, var |-> vs[c.own],
   str |-> IF Readable(c) THEN [j \in 1..Len(Texts) |-> TextAt(c, c.lo, Texts[j])] ELSE <<>>,
   at |-> IF Readable(c) THEN [i \in 1..Len(Places) |-> [j \in 1..Len(Texts) |-> TextAt(c, Places[i], Texts[j])]] ELSE <<>>,
   re |-> IF Readable(c) THEN [j \in 1..Len(Regexes) |-> RegexAt(c, Regexes[j])] ELSE <<>>,
   show |-> IF Readable(c) THEN [n \in 1..4 |-> Shown(c, n - 1)] ELSE <<>>]

Effect(cs, op) ==
  IF op.c > Len(cs) THEN cs
  ELSE CASE op.o = "start" -> [cs EXCEPT ![op.c].lo = op.a]
    [] op.o = "end" -> [cs EXCEPT ![op.c].hi = op.a]
    [] op.o = "offset" -> [cs EXCEPT ![op.c].lo = op.a, ![op.c].hi = op.b]
    [] op.o = "clone" -> IF Len(cs) < MaxContexts THEN Append(cs, [cs[op.c] EXCEPT !.n = op.a]) ELSE cs
    [] op.o = "push" -> [cs EXCEPT ![op.c].stk = Append(@, op.a)]
    [] op.o = "pop" -> [cs EXCEPT ![op.c].stk = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
    [] op.o = "debug" -> [cs EXCEPT ![op.c].dbg = op.a]
    [] OTHER -> cs
Do ==
  /\ k < Len(cas.ops)
  /\ LET op == cas.ops[k + 1]
         cs == Effect(cx, op)
         vs == IF op.o = "var" /\ op.c <= Len(cx) THEN [var EXCEPT ![cx[op.c].own] = op.a] ELSE var
     IN /\ cx' = cs /\ var' = vs
        /\ seen' = Append(seen, [j \in 1..Len(cs) |-> Sight(cs[j], vs)])
  /\ k' = k + 1 /\ UNCHANGED cas
Tell ==
  /\ k = Len(cas.ops)
  /\ Publish(cas, seen)
  /\ k' = k + 1 /\ UNCHANGED <<cas, cx, var, seen>>
Next == Do \/ Tell

\* What one context is told changes no other
Alone ==
  [][k < Len(cas.ops) => \A j \in 1..Len(cx) : j # cas.ops[k + 1].c => cx'[j] = cx[j]]_vars
\* Matches begin where they are looked for, and end in the window
Inside ==
  \A i \in 1..Len(seen) : \A j \in 1..Len(seen[i]) :
    LET s == seen[i][j]
    IN /\ \A x \in 1..Len(s.str) : s.str[x] # Nothing => s.str[x][1] = s.w[1] /\ s.str[x][2] <= s.w[2]
       /\ \A x \in 1..Len(s.re) : s.re[x] # Nothing => s.re[x][1] = s.w[1] /\ s.re[x][2] <= s.w[2]
       /\ \A p \in 1..Len(s.at) : \A x \in 1..Len(s.at[p]) : s.at[p][x] # Nothing => s.at[p][x][2] <= s.w[2]
View == <<cas.id, k>>
=============================================================================
