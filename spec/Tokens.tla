------------------------------- MODULE Tokens -------------------------------
(* C23: tokens after any sequence of changes.  Tokens 1 and 2 are of a       *)
(* match, token 3 is one of a pin (its texts only change when set, and       *)
(* attributes override them).                                                *)
EXTENDS Text, Cases

VARIABLES cas, toks, k, seen
vars == <<cas, toks, k, seen>>

DefaultSrc == <<97, 195, 169, 10, 98>>
Zero == [t |-> 0, o |-> "", a |-> 0, b |-> 0, s |-> "", v |-> <<>>, l |-> <<>>]
Range(o, t, a, b) == [Zero EXCEPT !.o = o, !.t = t, !.a = a, !.b = b]
Text1(o, t, v) == [Zero EXCEPT !.o = o, !.t = t, !.v = v]
Nam(t, s) == [Zero EXCEPT !.o = "name", !.t = t, !.s = s]
Attr(t, s, v) == [Zero EXCEPT !.o = "attr", !.t = t, !.s = s, !.v = v]
Flag(o, t, a) == [Zero EXCEPT !.o = o, !.t = t, !.a = a]
Kid(t, a) == [Zero EXCEPT !.o = "child", !.t = t, !.a = a]
Kids(t, l) == [Zero EXCEPT !.o = "children", !.t = t, !.l = l]
Parent(t, a) == [Zero EXCEPT !.o = "parent", !.t = t, !.a = a]

X == <<120>>
Ops ==
  << Nam(1, "B"), Nam(2, "A"), Nam(3, "A"), Nam(3, "XA"), Nam(2, "ab"), Nam(3, "AB"),
     Range("crange", 1, 1, 3), Range("crange", 2, 0, 1), Range("crange", 1, 2, 5), Range("crange", 3, 0, 1), Range("crange", 2, 4, 9),
     Range("mrange", 1, 0, 5), Range("mrange", 2, 1, 3), Range("mrange", 3, 0, 5), Range("mrange", 1, 1, 1),
     Range("crmut", 1, 3, 4), Range("mrmut", 2, 3, 4), Range("crmut", 2, 0, 1),
     Text1("value", 1, X), Text1("value", 2, <<195, 169>>), Text1("value", 1, <<>>), Text1("value", 3, X),
     Text1("cvalue", 1, <<121>>), Text1("cvalue", 2, <<>>), Text1("cvalue", 3, <<121>>), Text1("mvalue", 1, <<122>>), Text1("mvalue", 3, <<122>>),
     Attr(1, "k", X), Attr(1, "k", <<121>>), Attr(1, "__value", <<119>>), Attr(1, "__matched_value", <<119>>), Attr(2, "__value", <<>>),
     Attr(3, "__value", <<119>>), Attr(3, "__matched_value", <<117>>), Attr(2, "K", X),
     Flag("setf", 1, 3), Flag("setf", 2, 2), Flag("enf", 1, 4), Flag("enf", 2, 1), Flag("disf", 1, 1), Flag("disf", 1, 6), Flag("setf", 1, 0),
     Flag("enf", 3, 130), Flag("disf", 3, 2),
     Kid(1, 2), Kid(1, 3), Kid(2, 3), Kid(1, 2), Kids(1, <<3, 2>>), Kids(1, <<>>), Kids(2, <<1>>),
     Parent(2, 1), Parent(3, 2), Parent(2, 0) >>
Long == IF Big THEN 4 ELSE 3
Size == WordCount(Len(Ops), Long)
CaseNr(i) == [id |-> i + 1, m |-> "tokens", src |-> DefaultSrc, ops |-> LET w == Word(Len(Ops), i) IN [j \in 1..Len(w) |-> Ops[w[j]]]]
ASSUME Announce(Size)
Case(j) == IF FromFile THEN FileCases[j] ELSE CaseNr(IndexOf(Size, j))

New(src, pin, name, a, b, c, d) ==
  [pin |-> pin, n |-> name, c |-> <<a, b>>, m |-> <<c, d>>, ct |-> Slice(src, a, b), mt |-> Slice(src, c, d),
   set |-> FALSE, val |-> <<>>, at |-> [x \in {} |-> <<>>], f |-> {}, kids |-> <<>>, par |-> 0]

Init ==
  /\ \E j \in 1..(IF FromFile THEN Len(FileCases) ELSE ChosenOf(Size)) : cas = Case(j)
  /\ toks = << New(cas.src, FALSE, "A", 0, 1, 0, 1), New(cas.src, FALSE, "B", 1, 3, 0, 5), New(cas.src, TRUE, "P", 3, 4, 3, 4) >>
  /\ k = 0 /\ seen = <<>>

\* Flags are a set of bits
Bits == {1, 2, 4, 8, 16, 32, 64, 128}
BitsOf(n) == {b \in Bits : (n \div b) % 2 = 1}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN b + Total(S \ {b})

Effect(t, op) ==
  LET r == <<op.a, op.b>> IN
  CASE op.o = "name" -> [t EXCEPT !.n = op.s]
    [] op.o = "crange" -> IF t.pin THEN [t EXCEPT !.c = r] ELSE [t EXCEPT !.c = r, !.ct = Slice(cas.src, op.a, op.b)]
    [] op.o = "mrange" -> IF t.pin THEN [t EXCEPT !.m = r] ELSE [t EXCEPT !.m = r, !.mt = Slice(cas.src, op.a, op.b)]
    [] op.o = "crmut" -> [t EXCEPT !.c = r]
    [] op.o = "mrmut" -> [t EXCEPT !.m = r]
    [] op.o = "value" -> [t EXCEPT !.set = op.v # <<>>, !.val = op.v]
    [] op.o = "cvalue" -> [t EXCEPT !.ct = op.v]
    [] op.o = "mvalue" -> [t EXCEPT !.mt = op.v]
    [] op.o = "attr" -> [t EXCEPT !.at = (op.s :> op.v) @@ @]
    [] op.o = "setf" -> [t EXCEPT !.f = BitsOf(op.a)]
    [] op.o = "enf" -> [t EXCEPT !.f = @ \cup BitsOf(op.a)]
    [] op.o = "disf" -> [t EXCEPT !.f = @ \ BitsOf(op.a)]
    [] op.o = "child" -> [t EXCEPT !.kids = Append(@, op.a)]
    [] op.o = "children" -> [t EXCEPT !.kids = op.l]
    [] op.o = "parent" -> [t EXCEPT !.par = op.a]

\* [has, value] of an attribute
At(t, s) == IF s \in DOMAIN t.at THEN <<TRUE, t.at[s]>> ELSE <<FALSE, <<>>>>

CapturedText(t) == IF t.pin /\ "__value" \in DOMAIN t.at THEN t.at["__value"] ELSE t.ct
MatchedText(t) == IF t.pin /\ "__matched_value" \in DOMAIN t.at THEN t.at["__matched_value"] ELSE t.mt
Value(t) ==
  IF "__value" \in DOMAIN t.at THEN t.at["__value"]
  ELSE IF t.set THEN t.val ELSE CapturedText(t)

Known == <<"k", "K", "__value", "__matched_value">>
\* Names that are looked for, and those the expressions A|B, P|B, A, ^A$, B$, (?i)ab and the empty one are found in
Sought == <<"A", "B", "P", "XA", "a">>
Fuzzy == << {"A", "B", "XA", "AB"}, {"P", "B", "AB"}, {"A", "XA", "AB"}, {"A"}, {"B", "AB"}, {"AB", "ab"}, {"A", "B", "P", "XA", "AB", "ab", ""} >>
RECURSIVE FirstKid(_, _, _)
FirstKid(ts, kids, names) ==
  IF kids = <<>> THEN 0 ELSE IF ts[kids[1]].n \in names THEN kids[1] ELSE FirstKid(ts, Tail(kids), names)

Look(ts, i) ==
  LET t == ts[i] IN
  [n |-> t.n, c |-> t.c, m |-> t.m, v |-> Value(t), ct |-> CapturedText(t), mt |-> MatchedText(t),
   at |-> [j \in 1..4 |-> At(t, Known[j])],
   ats |-> Len(SelectSeq(Known, LAMBDA s : s \in DOMAIN t.at)),
   eq |-> [j \in 1..12 |-> At(t, Known[((j - 1) \div 3) + 1]) = <<TRUE, << X, <<>>, <<121>> >>[((j - 1) % 3) + 1]>>],
   has |-> [j \in 1..4 |-> Known[j] \in DOMAIN t.at],
   f |-> Total(t.f), on |-> [j \in 1..4 |-> t.f \cap BitsOf(<<1, 2, 4, 6>>[j]) # {}],
   kids |-> t.kids, par |-> t.par, disc |-> t.pin,
   find |-> [j \in 1..Len(Sought) |-> FirstKid(ts, t.kids, {Sought[j]})],
   any |-> [j \in 1..Len(Sought) |-> FirstKid(ts, t.kids, {Sought[j]}) # 0],
   fuzzy |-> [j \in 1..Len(Fuzzy) |-> FirstKid(ts, t.kids, Fuzzy[j])],
   same |-> [j \in 1..3 |-> t.n = ts[j].n /\ t.c = ts[j].c /\ t.m = ts[j].m]]

Do ==
  /\ k < Len(cas.ops)
  /\ LET op == cas.ops[k + 1]
         ts == [toks EXCEPT ![op.t] = Effect(@, op)]
     IN /\ toks' = ts
        /\ seen' = Append(seen, [r |-> IF op.o = "attr" THEN At(toks[op.t], op.s) ELSE <<FALSE, <<>>>>,
                                 t |-> [i \in 1..3 |-> Look(ts, i)]])
  /\ k' = k + 1 /\ UNCHANGED cas
Tell ==
  /\ k = Len(cas.ops)
  /\ Publish(cas, seen)
  /\ k' = k + 1 /\ UNCHANGED <<cas, toks, seen>>
Next == Do \/ Tell

\* A change of one token changes no other
Alone == [][\A i \in 1..3 : k < Len(cas.ops) /\ i # cas.ops[k + 1].t => toks'[i] = toks[i]]_vars
\* The value and ranges do not depend on flags, attributes without meaning, children or parent
Apart ==
  [][k < Len(cas.ops) /\ cas.ops[k + 1].o \in {"setf", "enf", "disf", "child", "children", "parent", "name"} =>
       \A i \in 1..3 : /\ Value(toks'[i]) = Value(toks[i]) /\ toks'[i].c = toks[i].c /\ toks'[i].m = toks[i].m
                       /\ MatchedText(toks'[i]) = MatchedText(toks[i])]_vars
\* Setting and reading again
SetThenGet ==
  [][k < Len(cas.ops) =>
       LET op == cas.ops[k + 1]
           t == toks'[op.t]
       IN /\ op.o = "attr" => At(t, op.s) = <<TRUE, op.v>>
          /\ op.o \in {"crange", "crmut"} => t.c = <<op.a, op.b>>
          /\ op.o = "value" /\ op.v # <<>> /\ "__value" \notin DOMAIN t.at => Value(t) = op.v
          /\ op.o = "crange" /\ ~t.pin /\ ~t.set /\ "__value" \notin DOMAIN t.at => Value(t) = Slice(cas.src, op.a, op.b)
          /\ op.o = "mrange" /\ ~t.pin => MatchedText(t) = Slice(cas.src, op.a, op.b)]_vars
SameMeansEqual == \A i, j \in 1..3 : (Len(seen) > 0) => seen[Len(seen)].t[i].same[j] = seen[Len(seen)].t[j].same[i]
View == <<cas.id, k>>
=============================================================================
