-------------------------------- MODULE Scopes ------------------------------
(* C22: scopes, stacks of scopes, and the variables and patterns of a parse  *)
(* context.  Scopes are shared: stacks hold scopes by identity.              *)
EXTENDS Cases, FiniteSets

VARIABLES cas, scopes, stacks, mats, k, seen
vars == <<cas, scopes, stacks, mats, k, seen>>

Names == {"v", "w"}
None == [t |-> "none", v |-> 0]
Empty == [n \in Names |-> None]
\* stack 1 is the one of the parse context
Op(o, a, b, n, v) == [o |-> o, a |-> a, b |-> b, n |-> n, v |-> v]
S(i) == [t |-> "str", v |-> i]
T(i) == [t |-> "tok", v |-> i]
M(i) == [t |-> "mat", v |-> i]

Ops ==
  << Op("new", 0, 0, "", None), Op("push", 1, 1, "", None), Op("push", 1, 2, "", None), Op("push", 2, 1, "", None), Op("pop", 1, 0, "", None),
     Op("pop", 2, 0, "", None), Op("set", 1, 0, "v", S(1)), Op("set", 1, 0, "v", M(1)), Op("set", 2, 0, "w", S(2)), Op("set", 2, 0, "v", T(1)),
     Op("sset", 1, 0, "v", S(2)), Op("sset", 2, 0, "w", T(1)), Op("copy", 1, 0, "", None), Op("copy", 2, 0, "", None),
     Op("pset", 0, 0, "w", S(1)), Op("reg", 1, 0, "", None), Op("regn", 2, 0, "v", None), Op("regs", 1, 2, "", None), Op("regm", 2, 0, "w", None),
     Op("rename", 1, 0, "w", None), Op("rename", 2, 0, "v", None) >>
Long == IF Big THEN 4 ELSE 3
Size == WordCount(Len(Ops), Long)
CaseNr(i) == [id |-> i + 1, m |-> "scopes", ops |-> LET w == Word(Len(Ops), i) IN [j \in 1..Len(w) |-> Ops[w[j]]]]
ASSUME Announce(Size)
Case(j) == IF FromFile THEN FileCases[j] ELSE CaseNr(IndexOf(Size, j))

MaxScopes == 6
MaxStacks == 4

Init ==
  /\ \E j \in 1..(IF FromFile THEN Len(FileCases) ELSE ChosenOf(Size)) : cas = Case(j)
  /\ scopes = << Empty, Empty >>
  /\ stacks = << <<>>, <<>> >>
  /\ mats = <<"v", "w">>
  /\ k = 0 /\ seen = <<>>

RECURSIVE Look(_, _, _)
Look(sc, st, n) ==
  IF st = <<>> THEN None
  ELSE IF sc[st[Len(st)]][n] # None THEN sc[st[Len(st)]][n]
  ELSE Look(sc, SubSeq(st, 1, Len(st) - 1), n)

\* Setting in a stack: <<scopes, stacks, the value that was replaced>>
Setting(sc, ss, i, n, v) ==
  LET made == ss[i] = <<>>
      sc2 == IF made THEN Append(sc, Empty) ELSE sc
      ss2 == IF made THEN [ss EXCEPT ![i] = <<Len(sc2)>>] ELSE ss
      top == ss2[i][Len(ss2[i])]
  IN <<[sc2 EXCEPT ![top][n] = v], ss2, sc2[top][n]>>

Exists(op) ==
  CASE op.o \in {"set", "pop", "copy"} -> op.a <= Len(stacks)
    [] op.o = "push" -> op.a <= Len(stacks) /\ op.b <= Len(scopes)
    [] op.o = "sset" -> op.a <= Len(scopes)
    [] OTHER -> TRUE

\* <<scopes, stacks, matcher names, result>>
Keep(r) == <<scopes, stacks, mats, r>>
With(x, r) == <<x[1], x[2], mats, r>>
Effect(op) ==
  IF ~Exists(op) THEN Keep(None)
  ELSE CASE op.o = "new" -> IF Len(scopes) < MaxScopes THEN <<Append(scopes, Empty), stacks, mats, None>> ELSE Keep(None)
    [] op.o = "push" -> <<scopes, [stacks EXCEPT ![op.a] = Append(@, op.b)], mats, None>>
    [] op.o = "pop" ->
         LET st == stacks[op.a] IN
         IF st = <<>> THEN Keep(None)
         ELSE <<scopes, [stacks EXCEPT ![op.a] = SubSeq(st, 1, Len(st) - 1)], mats, [t |-> "scope", v |-> st[Len(st)]]>>
    [] op.o = "set" -> LET x == Setting(scopes, stacks, op.a, op.n, op.v) IN With(x, x[3])
    [] op.o = "sset" -> <<[scopes EXCEPT ![op.a][op.n] = op.v], stacks, mats, scopes[op.a][op.n]>>
    [] op.o = "copy" -> IF Len(stacks) < MaxStacks THEN <<scopes, Append(stacks, stacks[op.a]), mats, None>> ELSE Keep(None)
    [] op.o = "pset" -> LET x == Setting(scopes, stacks, 1, op.n, op.v) IN With(x, x[3])
    [] op.o = "reg" -> LET x == Setting(scopes, stacks, 1, mats[op.a], M(op.a)) IN With(x, None)
    [] op.o \in {"regn", "regm"} -> LET x == Setting(scopes, stacks, 1, op.n, M(op.a)) IN With(x, None)
    [] op.o = "regs" ->
         LET x == Setting(scopes, stacks, 1, mats[op.a], M(op.a))
             y == Setting(x[1], x[2], 1, mats[op.b], M(op.b))
         IN With(y, None)
    [] op.o = "rename" -> <<scopes, stacks, [mats EXCEPT ![op.a] = op.n], None>>

RegisteredAt(sc, st, n) == LET x == Look(sc, st, n) IN IF x.t = "mat" THEN x.v ELSE 0
\* What can be seen of everything
Sight(sc, ss, r) ==
  [r |-> r,
   gets |-> [i \in 1..Len(ss) |-> <<Look(sc, ss[i], "v"), Look(sc, ss[i], "w")>>],
   own |-> [i \in 1..Len(sc) |-> <<sc[i]["v"], sc[i]["w"]>>],
   reg |-> <<RegisteredAt(sc, ss[1], "v"), RegisteredAt(sc, ss[1], "w")>>]

Do ==
  /\ k < Len(cas.ops)
  /\ LET e == Effect(cas.ops[k + 1])
     IN /\ scopes' = e[1] /\ stacks' = e[2] /\ mats' = e[3]
        /\ seen' = Append(seen, Sight(e[1], e[2], e[4]))
  /\ k' = k + 1 /\ UNCHANGED cas
Tell ==
  /\ k = Len(cas.ops)
  /\ Publish(cas, seen)
  /\ k' = k + 1 /\ UNCHANGED <<cas, scopes, stacks, mats, seen>>
Next == Do \/ Tell

\* Setting and looking up again finds what was set
SetThenGet ==
  [][k < Len(cas.ops) /\ cas.ops[k + 1].o = "set" /\ Exists(cas.ops[k + 1]) =>
       LET op == cas.ops[k + 1] IN Look(scopes', stacks'[op.a], op.n) = op.v]_vars
\* Only bindings in one scope change in a step
OneScope ==
  [][\A i, j \in 1..Len(scopes) : i # j /\ scopes'[i] # scopes[i] => scopes'[j] = scopes[j]]_vars
\* Pushing and popping change no binding
PushPopKeep ==
  [][k < Len(cas.ops) /\ cas.ops[k + 1].o \in {"push", "pop", "copy", "new"} =>
       \A i \in 1..Len(scopes) : scopes'[i] = scopes[i]]_vars
\* A binding that is visible is that of the innermost scope that has one
Innermost ==
  \A i \in 1..Len(stacks) : \A n \in Names :
    LET with == {p \in 1..Len(stacks[i]) : scopes[stacks[i][p]][n] # None}
    IN IF with = {} THEN Look(scopes, stacks[i], n) = None
       ELSE \E p \in with : (\A q \in with : q <= p) /\ Look(scopes, stacks[i], n) = scopes[stacks[i][p]][n]
View == <<cas.id, k>>
=============================================================================
