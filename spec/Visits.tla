-------------------------------- MODULE Visits ------------------------------
(* C21: visiting a tree.  A tree is given as the depths and names of its     *)
(* tokens in pre-order; functions by the names they are registered for; the  *)
(* call number `stop` (if there are that many) returns an error.  `from`: the*)
(* tokens where visits begin, one visit after the other with the same        *)
(* functions; `dress`: what else the tokens are (of no consequence here).    *)
EXTENDS Cases, FiniteSets

VARIABLES cas, at, todo, calls, ctl, oks
vars == <<cas, at, todo, calls, ctl, oks>>

Names == <<"A", "B", "*">>
Hooks == <<"A", "B", "*", "C">>

\* Shapes: depth sequences in pre-order (1 for the root; then at most one deeper than before)
RECURSIVE Shapes(_)
Shapes(n) ==
  IF n = 1 THEN { <<1>> }
  ELSE UNION { {Append(s, d) : d \in 2..(s[n - 1] + 1)} : s \in Shapes(n - 1) }
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
AllShapes == SetToSeq(UNION {Shapes(n) : n \in 1..(IF Big THEN 5 ELSE 4)})

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
HookLists == 1 + WordCount(4, 3)
HookList(i) == IF i = 0 THEN <<>> ELSE [k \in 1..Len(Word(4, i - 1)) |-> Hooks[Word(4, i - 1)[k]]]
MaxStop == IF Big THEN 6 ELSE 5
Namings(s) == Power(3, Len(AllShapes[s]))
\* index -> shape, naming, hooks, stop
RECURSIVE Locate(_, _)
Locate(i, s) ==
  LET n == Namings(s) * HookLists * MaxStop
  IN IF i < n THEN <<s, i>> ELSE Locate(i - n, s + 1)
RECURSIVE Sum(_)
Sum(s) == IF s = 0 THEN 0 ELSE Namings(s) * HookLists * MaxStop + Sum(s - 1)
Size == Sum(Len(AllShapes))
CaseNr(i) ==
  LET x == Locate(i, 1)
      sh == AllShapes[x[1]]
      j == x[2] \div MaxStop
      nm == j \div HookLists
  IN [id |-> i + 1, m |-> "visits", depth |-> sh, name |-> [k \in 1..Len(sh) |-> Names[((nm \div Power(3, k - 1)) % 3) + 1]],
      hooks |-> HookList(j % HookLists), stop |-> x[2] % MaxStop, dress |-> i % 8,
      from |-> IF (i \div 3) % 7 = 0 THEN <<Len(sh), 1>> ELSE IF (i \div 3) % 7 = 1 THEN <<(Len(sh) + 1) \div 2, 1>> ELSE <<1>>]
ASSUME Announce(Size)
Case(k) == IF FromFile THEN FileCases[k] ELSE CaseNr(IndexOf(Size, k))

\* The children of token k (1 is the root), in order
Parent(c, k) == CHOOSE p \in 1..(k - 1) : c.depth[p] = c.depth[k] - 1 /\ \A q \in (p + 1)..(k - 1) : c.depth[q] >= c.depth[k]
Children(c, k) == SelectSeq([x \in 1..Len(c.depth) |-> x], LAMBDA x : x > k /\ Parent(c, x) = k)

\* The function for a name: the first one registered for it, else the first one for every name, else 0
FirstFor(c, n) ==
  LET ks == {k \in 1..Len(c.hooks) : c.hooks[k] = n}
  IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
HookFor(c, n) == IF FirstFor(c, n) # 0 THEN FirstFor(c, n) ELSE FirstFor(c, "*")

Init ==
  /\ \E k \in 1..(IF FromFile THEN Len(FileCases) ELSE ChosenOf(Size)) : cas = Case(k)
  /\ at = 1 /\ todo = <<cas.from[1]>> /\ calls = <<>> /\ ctl = "go" /\ oks = <<>>

\* todo: the tokens that are still to be visited, next first
Visit ==
  /\ ctl = "go" /\ todo # <<>>
  /\ LET t == todo[1]
         h == HookFor(cas, cas.name[t])
         log == IF h = 0 THEN calls ELSE Append(calls, <<h, t>>)
         fails == h # 0 /\ Len(log) = cas.stop
     IN /\ calls' = log
        /\ todo' = IF fails THEN <<>> ELSE Children(cas, t) \o Tail(todo)
        /\ ctl' = IF fails THEN "error" ELSE "go"
  /\ UNCHANGED <<cas, at, oks>>
Again ==
  /\ ctl \in {"go", "error"} /\ todo = <<>>
  /\ oks' = Append(oks, ctl = "go")
  /\ IF at < Len(cas.from)
     THEN at' = at + 1 /\ todo' = <<cas.from[at + 1]>> /\ ctl' = "go"
     ELSE at' = at /\ todo' = <<>> /\ ctl' = "done" /\ Publish(cas, [calls |-> calls, ok |-> oks'])
  /\ UNCHANGED <<cas, calls>>
Next == Visit \/ Again

\* Every token once, parents first, siblings in order
RECURSIVE Below(_, _)
Below(c, k) == {k} \cup UNION {Below(c, Children(c, k)[x]) : x \in 1..Len(Children(c, k))}
OnceEach == Len(cas.from) = 1 => \A i, j \in 1..Len(calls) : i < j => calls[i][2] < calls[j][2]
Complete ==
  (ctl = "done" /\ \A k \in 1..Len(oks) : oks[k]) =>
    {calls[k][2] : k \in 1..Len(calls)}
      = {t \in UNION {Below(cas, cas.from[k]) : k \in 1..Len(cas.from)} : HookFor(cas, cas.name[t]) # 0}
Stopped == /\ ctl = "error" => Len(calls) = cas.stop
           /\ ctl = "done" => (Len(calls) >= cas.stop /\ cas.stop > 0) = (\E k \in 1..Len(oks) : ~oks[k])
View == <<cas.id, at, ctl, Len(calls), todo>>
=============================================================================
