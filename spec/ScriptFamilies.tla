--------------------------- MODULE ScriptFamilies ---------------------------
(* Families of scripts.  A family is [dims, ...]: the numbers of choices;    *)
(* its cases are all combinations.                                           *)
EXTENDS Script, Families, IOUtils

LargeScripts == IOEnv.BIG = "1"
Larger(small, big) == IF LargeScripts THEN big ELSE small

RECURSIVE Digits(_, _, _)
Digits(i, dims, k) == IF k > Len(dims) THEN <<>> ELSE <<i % dims[k]>> \o Digits(i \div dims[k], dims, k + 1)

RECURSIVE ProductOf(_, _)
ProductOf(dims, k) == IF k > Len(dims) THEN 1 ELSE dims[k] * ProductOf(dims, k + 1)

-----------------------------------------------------------------------------
(* Syntax trees *)
MEq(t) == Matcher("eq", <<T(t)>>, <<>>)
MRe(t, fl) == Matcher("re", <<T(t), T(fl)>>, <<>>)
MSq(x, y, z) == Matcher("sq", <<T(x), T(y), T(z)>>, <<>>)
MId(n) == Matcher("id", <<T(n)>>, <<>>)
MSw(ps) == Matcher("sw", <<>>, ps)
MPr(ps) == Matcher("pr", <<>>, ps)
Df(m) == Definition("", "", m, <<>>, NoRepeat)
DfA(m, at) == Definition("", "", m, at, NoRepeat)
Cap(d) == Pattern(TRUE, <<>>, d)
CapN(n, d) == Pattern(TRUE, <<T(n)>>, d)
Bare(d) == Pattern(FALSE, <<>>, d)
At(n, v) == <<T(n), T(v)>>
Version == At("version", "1")
StId(n, r) == Statement("id", T(n), T(r), <<>>, <<>>, <<>>)
StDef(n, d) == Statement("def", T(n), <<>>, <<d>>, <<>>, <<>>)
StImp(ids, path) == Statement("imp", <<>>, <<>>, <<>>, [k \in 1..Len(ids) |-> <<T(ids[k][1]), T(ids[k][2])>>], T(path))
Scr(hd, at, st, ps) == [hd |-> hd, at |-> at, st |-> st, ps |-> ps]
Rep(t, lo, hi) == [t |-> t, lo |-> T(lo), hi |-> T(hi)]

\* Words over a and b up to a length
Longer == <<T("aab"), T("abab"), T("abba"), T("aabb"), T("baab"), T("aabbb"), T("ababb"), T("babab"), T("abbab"), T("bbaab")>>
AllWords(l) == [k \in 1..Words(2, l) |-> WordOf(<<A1, B1>>, k - 1)]

-----------------------------------------------------------------------------
(* C24: patterns of every kind, nested *)
EAcuteL == <<195, 169>>
Leaves24 ==
  <<MEq("a"), MEq("b"), MRe("a*", ""), MRe("[^b]", "i"), MSq("a", "b", ""), MId("A"), MId("B")>>
\* B is recursive
Header24 == <<StDef("A", Df(MEq("ab"))),
              StDef("B", Df(MSw(<<Cap(Df(MPr(<<Bare(Df(MEq("a"))), Cap(Df(MId("B"))), Cap(Df(MEq("b")))>>))), Cap(Df(MEq("b")))>>)))>>

Captured(i, d) == IF i = 0 THEN Cap(d) ELSE Bare(d)
Negated(i, m) == [Df(m) EXCEPT !.io = IF i = 0 THEN "" ELSE "!"]

PatternCount24(d) ==
  LET n == 2 * Len(Leaves24) IN
  CASE d = 0 -> n
    [] d = 1 -> n + 2 + 2 * 3 * n * n
    [] OTHER -> LET m == n + 2 + 2 * 3 * n * n IN m + 2 * 3 * m * m

RECURSIVE Pattern24(_, _)
Pattern24(d, i) ==
  LET n == 2 * Len(Leaves24)
      m == PatternCount24(d - 1)
      j == i - m
      kids == <<Pattern24(d - 1, (j \div 6) % m), Pattern24(d - 1, (j \div 6) \div m)>>
      op == (j \div 2) % 3
  IN CASE i < n -> Captured(i % 2, Df(Leaves24[i \div 2 + 1]))
       [] i < n + 2 -> Captured(0, Negated(1, Leaves24[i - n + 1]))
       [] i < m -> Pattern24(d - 1, i)
       [] op = 0 -> Captured(j % 2, Df(MSw(kids)))
       [] op = 1 -> Captured(j % 2, Df(MPr(kids)))
       [] OTHER -> Captured(j % 2, Df(MPr(<<kids[1], Bare(Df(MEq("b"))), kids[2]>>)))

-----------------------------------------------------------------------------
(* C25: marks and repetitions *)
Marks == <<"", "?", "!">>
Repeats == <<NoRepeat, Rep("*", "", ""), Rep("+", "", ""), Rep("n", "0", ""), Rep("n", "2", ""), Rep("n,", "2", ""), Rep("n,", "0", ""),
             Rep("n,m", "0", "1"), Rep("n,m", "1", "2"), Rep("n,m", "2", "2"), Rep("n,m", "2", "1")>>
Leaves25 == <<MEq("a"), MRe("b?", ""), MSw(<<Cap(Df(MEq("ab"))), Cap(Df(MEq("b")))>>), MPr(<<Cap(Df(MEq("a"))), Bare(Df(MEq("b")))>>), MId("A")>>
Marked(oo, io, rep, m) == Definition(Marks[oo + 1], Marks[io + 1], m, <<>>, Repeats[rep + 1])
Header25 == <<StDef("A", Definition("", "", MEq("a"), <<>>, Rep("n,m", "1", "2")))>>

-----------------------------------------------------------------------------
(* C26: names, attributes, assignments, header *)
Statements26 ==
  <<StDef("A", Df(MEq("a"))), StId("A", "B"), StDef("B", DfA(MEq("b"), <<At("k", "1")>>)), StId("B", "C"),
    StDef("C", DfA(MSw(<<Cap(DfA(MEq("a"), <<At("k", "in")>>)), Cap(Df(MEq("b")))>>), <<At("k", "out"), At("l", "2")>>)),
    StDef("A", Definition("?", "", MRe("[ab]", ""), <<At("k", "4")>>, Rep("n,", "2", "")))>>
Patterns26 ==
  <<Cap(Df(MId("A"))), CapN("X", Df(MId("A"))), CapN("X", DfA(MId("B"), <<At("k", "3")>>)), Cap(DfA(MId("C"), <<At("k", "3"), At("m", "a'b\\c")>>)),
    CapN("A", DfA(MEq("a"), <<At("k", "1"), At("k", "2")>>)), Bare(DfA(MId("A"), <<At("k", "1")>>)),
    CapN("Y", DfA(MPr(<<CapN("Z", Df(MId("A"))), Cap(Df(MId("B")))>>), <<At("k", "5")>>)),
    CapN("Equals", Definition("", "", MEq("b"), <<At("k", "6")>>, Rep("+", "", ""))),
    CapN("", Df(MEq("a"))),
    CapN("W", DfA(MRe("a+", ""), <<At("x+1", "")>>)), CapN("V", DfA(MSq("a", "b", ""), <<At("k", "7")>>))>>
Headers26 ==
  <<<<Version>>, <<Version, At("name", "N")>>, <<At("name", "N"), Version, At("other", "x")>>,
    <<At("name", "M"), At("version", "+12"), At("name", "N")>>, <<At("name", "N")>>, <<At("version", "one")>>,
    <<Version, At("_x", "1")>>, <<Version, At("name", "")>>>>

-----------------------------------------------------------------------------
(* C27: files that import from each other *)
MainStatements27 ==
  <<StImp(<<<<"A", "A">>>>, "b"), StImp(<<<<"A", "X">>>>, "./b"), StImp(<<<<"_", "B">>>>, "b"), StImp(<<<<"A", "A">>, <<"B", "X">>>>, "b"),
    StImp(<<<<"B", "B">>, <<"_", "X">>, <<"A", "A">>>>, "b"), StImp(<<<<"A", "B">>>>, "d/c"), StImp(<<<<"B", "A">>>>, "d/../d/c"),
    StImp(<<<<"_", "A">>>>, "d/c"), StImp(<<<<"A", "X">>>>, "d/../b"), StImp(<<<<"_", "X">>>>, "d/e"),
    StDef("A", Df(MEq("a"))), StId("X", "A"), StDef("B", Df(MPr(<<Cap(Df(MId("A"))), Cap(Df(MEq("b")))>>))),
    StImp(<<<<"Q", "A">>>>, "b"), StImp(<<<<"A", "A">>>>, "none"), StImp(<<<<"A", "A">>>>, "d"),
    StImp(<<<<"_", "_">>>>, "b"), StImp(<<<<"A", "A">>>>, "main"), StImp(<<<<"A", "X">>>>, "b/../b")>>
BStatements27 ==
  <<<<StDef("A", Df(MEq("a"))), StDef("B", Df(MPr(<<Cap(Df(MId("A"))), Bare(Df(MEq("b")))>>)))>>,
    <<StDef("B", Df(MEq("b"))), StId("A", "B")>>,
    <<StImp(<<<<"A", "A">>, <<"_", "B">>>>, "d/c")>>,
    <<StImp(<<<<"A", "C">>>>, "d/c"), StDef("A", Df(MSw(<<Cap(Df(MId("C"))), Cap(Df(MEq("b")))>>))), StDef("B", Df(MId("C")))>>,
    <<StDef("A", DfA(MEq("a"), <<At("k", "b")>>)), StImp(<<<<"B", "B">>, <<"A", "A">>>>, "d/c")>>,
    <<StId("B", "X"), StImp(<<<<"_", "A">>>>, "d/e")>>,
    <<StImp(<<<<"_", "A">>>>, "main"), StDef("B", Df(MEq("b")))>>,
    <<StImp(<<<<"A", "A">>>>, "b")>>>>
\* The first ones of each have nothing wrong with them
CStatements27 ==
  <<<<StDef("A", Df(MEq("b"))), StDef("B", Df(MRe("[ab]", "")))>>,
    <<StDef("B", Df(MId("A"))), StDef("A", Definition("", "", MEq("a"), <<>>, Rep("+", "", "")))>>,
    <<StImp(<<<<"_", "A">>>>, "e"), StDef("B", Df(MEq("b")))>>,
    <<StImp(<<<<"_", "B">>>>, "./e"), StImp(<<<<"_", "A">>>>, "../d/e")>>,
    <<StImp(<<<<"A", "A">>>>, "../b"), StDef("B", Df(MEq("a")))>>>>
MainPatterns27 ==
  <<<<Cap(Df(MId("A")))>>, <<Cap(Df(MId("X"))), Cap(Definition("?", "", MId("A"), <<>>, NoRepeat))>>, <<Cap(Df(MId("B"))), Cap(Df(MEq("b")))>>,
    <<CapN("N", Df(MSw(<<Cap(Df(MId("B"))), Cap(Df(MId("A")))>>)))>>>>

-----------------------------------------------------------------------------
(* C28: damaged scripts *)
Bases28 ==
  << "(<='a'>)", "<!--[adextopa version='1']-->(?'N'<A k='v'>)*", "(<{(<='a'>)<='b'>}>+)",
     "<!--[adextopa version='1']A=<='a'>-->(<A>)", "(?<![<='a'>|(<='b'>)]>{1,2})", "(<%'a','b','\\\\'>)",
     "(</[ab/]?/i>)<='a'>?<='b'>", "# c~(<='a' k='1' l='2'>)", "<!--[adextopa name='N' version='12']~B = A # c~  A=<='b'>~-->~(<B>)~# e",
     "<!--[adextopa version='1']import{A as B}from'b'-->(<B>)", "(<='a'>){ 1 , 2 }", "(<[(<='a'>)|(?'N'</b+/>)]>)" >>
EditBytes == T("a1'<>()[]{}|!?*+=/\\ #,-") \o <<10>>
EditTexts == [k \in 1..(Len(EditBytes) + 1) |-> IF k <= Len(EditBytes) THEN <<EditBytes[k]>> ELSE <<195, 169>>]

\* (~ for the end of a line)
BaseText(k) == LET t == T(Bases28[k]) IN [p \in 1..Len(t) |-> IF t[p] = 126 THEN 10 ELSE t[p]]

\* Edit e of text t: 0 delete, then replace by and insert each of EditTexts
EditsAt == 1 + 2 * Len(EditTexts)
\* (at the beginning of the character there)
Edited(t, at, e) ==
  LET n == Len(EditTexts)
      p == IF at < Len(t) /\ t[at + 1] \in 128..191 THEN at - 1 ELSE at
      after == IF p < Len(t) /\ t[p + 1] >= 128 THEN p + 2 ELSE p + 1
      before == SubSeq(t, 1, p)
  IN CASE e = 0 -> before \o SubSeq(t, after + 1, Len(t))
       [] e <= n -> before \o EditTexts[e] \o SubSeq(t, after + 1, Len(t))
       [] OTHER -> before \o EditTexts[e - n] \o SubSeq(t, p + 1, Len(t))

RECURSIVE BaseSizes(_)
BaseSizes(k) == IF k = 0 THEN 0 ELSE (Len(BaseText(k)) + 1) * EditsAt + BaseSizes(k - 1)
\* Sizes up to each base
BaseEnds == [k \in 0..Len(Bases28) |-> BaseSizes(k)]
BaseOf(i) == CHOOSE k \in 1..Len(Bases28) : BaseEnds[k - 1] <= i /\ i < BaseEnds[k]

-----------------------------------------------------------------------------
(* What scripts are written with: every short text at each place of a script *)
Single(t) == [k \in 1..Len(t) |-> <<t[k]>>]
\* Word i over chars, up to length 3
Upto(chars, l) == Words(Len(chars), l)
TextChars == Single(T("a'\\\" ")) \o <<EAcuteL, <<10>>, <<13>> >>
RegexChars == Single(T("ab[]/\\^-.|$*{1}"))
CountChars == Single(T("012, {}+"))
MarkChars == Single(T("?!<*+>"))
NameChars == Single(T("aZ9$_+-\\' (")) \o <<EAcuteL>>
VersionChars == Single(T("109-+. "))
PathChars == Single(T("./bd")) \o <<T(".."), T("d/e")>>
MistakeChars == Single(T("_x='a ?!>")) \o << <<10>>, EAcuteL>>
LayoutChars == Single(T(" #'>a")) \o << <<10>>, <<13>>, <<9>>, <<194, 160>>, <<12>>, <<239, 187, 191>>, <<226, 128, 168>> >>

\* Where the word goes: ~ in a text (^ for a line end)
Places24l == << "(<='~'>)", "(<='~b'>)", "(<%'~','b',''>)", "(<%'a','~',''>)", "(<%'a','b','~'>)" >>
Places24r == << "(</~/>)", "(</~/i>)", "(</[~]/>)", "(</a~/U>)" >>
Places24s == << "~(<='a'>)~", "(<='a'>)~(<='b'>)", "(~<~='a'~>~)", "(<[~(<='a'>)~|~(<='b'>)~]>)", "(<{~<='a'>~(<='b'>)~}>)", "<!--[adextopa~version='1'~]~A~=~<='a'>~-->~(<A>)",
                "<!--[adextopa version~=~'1']A=<='a'>~B=<A>~-->~(<B>)", "(<%~'a'~,~'b'~,~''~>)", "(</a/~k='v'~l='w'~>)", "(<A~k~=~'v'~>)", "(~?~'N'~<='a'>~)", "(<='a'>~*~)" >>
Places25l == << "(<='a'>{~})(<='b'>)", "(<='a'>~(<='b'>))", "(<[(<='a'>{~})|(<='b'>)]>)(</b*/>)", "<='a'>{~}(<='b'>)" >>
Places25m == << "(~='a'>)(<='b'>)", "(~<='a'>)", "(<~='a'>)", "(<='a'>~)", "~='a'>(<='b'>)" >>
Places26l == << "<!--[adextopa version='1']~=<='a'>-->(<~>)", "<!--[adextopa version='1']~=<='a'> Q=~ -->(<Q>)", "(?'~'<='a'>)", "(<='a' ~='v'>)", "(<='a' k='~'>)",
                "<!--[adextopa version='1' name='~']-->(<='a'>)", "<!--[adextopa version='1' ~='n']-->(<='a'>)", "<!--[adextopa version='1']A=<='a' ~='v' k='~'>-->(<A>)",
                "<!--[adextopa version='1']a=<='b'>~=<='a'>~=a-->(<~>)" >>
Places28v == << "<!--[adextopa version='~']-->(<='a'>)", "<!--[adextopa version='1'~]-->(<='a'>)", "<!--[adextopa name='a' version='~' k='1']-->(<='a'>)", "~<!--[adextopa version='1']-->(<='a'>)",
                "<!--[adextopa version='1' version='~']-->(<='a'>)", "(<='a'>){~}", "(<='a'>{~}~)" >>

Places28a == << "(<='a'~>)", "(<='a' k='v'~><='b'>)", "(<[(<='b'>)|(<{(<A~>)}>)]>)", "<!--[adextopa version='1'~]-->(<='a'>)", "<!--[adextopa version='1']B=<='a'~>-->(<B>)",
                "(~<~='a'~>)", "<='b'>(<[(<='b'>)|<~='a'~>|~]>)", "(<='a'>) ~ (<='b'>)", "<!--[adextopa version='1']~-->(<='a' ~>)" >>

\* (@ for the beginning of the script)
Places27s == << "@~import{A as X}from'b'-->(<X>)", "@import~{A as X}from'b'-->(<X>)", "@import{~A as X}from'b'-->(<X>)", "@import{A~as X}from'b'-->(<X>)",
                "@import{A as~X}from'b'-->(<X>)", "@import{A as X~}from'b'-->(<X>)", "@import{A as X}~from'b'-->(<X>)", "@import{A as X}from~'b'-->(<X>)",
                "@import{A as X}from'b'~-->(<X>)", "@import{A as X~,B}from'b'-->(<X>)(<B>)", "@import{A as X,~B}from'b'-->(<X>)(<B>)", "@import{B,_~as~R}from'b'-->(<B>)(<R>)",
                "@import{A}from'b'~import{B}from'b'-->(<A>)(<B>)", "@C=<='b'>~import{A}from'b'~D=<A>-->(<C>)(<D>)", "@import ~{~A~as~X~,~B~}~ from ~'b' ~ -->(<X>)(<B>)" >>

RECURSIVE Filled(_, _, _)
Filled(t, k, w) ==
  IF k > Len(t) THEN <<>> ELSE (CASE t[k] = 126 -> w [] t[k] = 94 -> <<10>> [] OTHER -> <<t[k]>>) \o Filled(t, k + 1, w)
RECURSIVE Bared(_)
Bared(w) == IF w = <<>> THEN <<>> ELSE IF w[1] = 92 /\ Len(w) > 1 THEN <<w[2]>> \o Bared(SubSeq(w, 3, Len(w))) ELSE <<w[1]>> \o Bared(Tail(w))
IsText(t) == \A k \in 1..Len(t) : t[k] < 128
WordRuns(w) == LET v == Bared(w) IN <<v, v \o T("b"), T("a") \o v, T("a") \o v \o T("b"), v \o T("ab"), T("b"), T("a"), T("ab"), T("aab")>>
LexRuns == <<<<>>, T("a"), T("b"), T("ab"), T("aab"), T("aaab"), T("aaaab"), T("bb"), T("]"), T("/"), T("a/b"), T("^"), T("-"), T("[a"), T(","), T("1"), T("0"), T("A")>>

\* The word, the place, and the runs of case d
Lexical(chars, l, places, d, ownRuns) ==
  LET w == WordOf(chars, d[1])
  IN [inline |-> TRUE, files |-> << [n |-> <<>>, s |-> Filled(T(places[d[2] + 1]), 1, w)] >>, ast |-> <<>>,
      runs |-> IF ownRuns THEN WordRuns(w) ELSE LexRuns]

\* Paths and lists of imports
Lists27 == <<<<"A", "A">>, <<"B", "B">>, <<"_", "C">>, <<"A", "C">>, <<"Q", "Q">>, <<"B", "A">>, <<"Q", "A">>, <<"_", "B">>>>
RECURSIVE ListOf(_, _)
ListOf(i, n) == IF i = 0 THEN <<>> ELSE <<Lists27[((i - 1) % n) + 1]>> \o ListOf((i - 1) \div n, n)
Uses27 == << "(<A>)", "(<B>)(<C>)", "(<[(<C>)|(<A>)]>)(?'N'<B>)", "(<='a'>)" >>
Files27p(path, uses, deep) ==
  << [n |-> T(IF deep = 0 THEN "main" ELSE "d/main"), s |-> T("<!--[adextopa version='1']import{A}from'") \o path \o T("'-->") \o T(uses)],
     [n |-> T("b"), s |-> T("<!--[adextopa version='1']A=<='a'>-->(<A>)")], [n |-> T("d/b"), s |-> T("<!--[adextopa version='1']A=<='b'>B=<='a'>-->(<A>)")],
     [n |-> T("d/e"), s |-> T("<!--[adextopa version='1']import{A}from'b'-->(<A>)")], [n |-> T("e"), s |-> T("<!--[adextopa version='1']import{A}from'd/e'-->(<A>)")] >>
\* (what the importing script says before or after the import)
Own27 == << "", "Q=<='b'>", "C=<='b'>Q=C", "import{A as Q}from'b'", "B=<{<A><='b'>}>", "A=<='b'>Q=<{(<B>)<A>}>" >>
Files27i(ids, uses, w, o) ==
  LET n == Len(Own27)
  IN
  << [n |-> T("main"), s |-> T("<!--[adextopa version='1']") \o (IF o < n THEN T(Own27[o + 1]) ELSE <<>>) \o T(IF o = 0 THEN "import{" ELSE " import{") \o WriteImports([k \in 1..Len(ids) |-> <<T(ids[k][1]), T(ids[k][2])>>], 1, w % 2)
                              \o (IF w < 2 THEN <<>> ELSE T(",")) \o T("}from'b'") \o (IF o < n THEN <<>> ELSE T(" ") \o T(Own27[o - n + 2])) \o T("-->") \o T(uses)],
     [n |-> T("b"), s |-> T("<!--[adextopa version='1']A=<='a'>B=<{(<A>)(<='b'>)}>C=<B>-->(<A>)")] >>

Files27s(place, w) ==
  << [n |-> T("main"), s |-> T("<!--[adextopa version='1']") \o Filled(Tail(T(place)), 1, w)],
     [n |-> T("b"), s |-> T("<!--[adextopa version='1']A=<='a'>B=<='b'>-->(<B>)(<A>)")] >>

-----------------------------------------------------------------------------
Fam(f, dims, inline, runs) == [f |-> f, dims |-> dims, inline |-> inline, runs |-> runs]

ScriptFamily(f) ==
  CASE f = "C24" -> Fam(f, <<PatternCount24(1), 4, 3>>, TRUE, AllWords(3) \o Longer)
    [] f = "C24d" -> Fam(f, <<PatternCount24(1), PatternCount24(1), 6, 3>>, TRUE, AllWords(3) \o Longer)
    [] f = "C25" -> Fam(f, <<3, 3, Len(Repeats), Len(Leaves25), 2, 2, 3>>, TRUE, AllWords(4))
    [] f = "C25n" -> Fam(f, <<3, 3, Len(Repeats), Len(Leaves25), 3, 3, Len(Repeats), 2, 3>>, TRUE, AllWords(4))
    [] f = "C26" -> Fam(f, <<7, 7, 7, 11, 12, 14, 6, 3>>, TRUE, AllWords(Larger(2, 3)))
    [] f = "C27" -> Fam(f, <<13, 14, 6, 4, 4, 2, 2>>, FALSE, AllWords(2))
    [] f = "C27x" -> Fam(f, <<19, 20, 8, 5, 4, 2, 2>>, FALSE, AllWords(2))
    [] f = "C24l" -> Fam(f, <<Upto(TextChars, 3), Len(Places24l)>>, TRUE, LexRuns)
    [] f = "C24r" -> Fam(f, <<Upto(RegexChars, 3), Len(Places24r)>>, TRUE, LexRuns)
    [] f = "C24s" -> Fam(f, <<Upto(LayoutChars, 3), Len(Places24s)>>, TRUE, LexRuns)
    [] f = "C25l" -> Fam(f, <<Upto(CountChars, 4), Len(Places25l)>>, TRUE, LexRuns)
    [] f = "C25m" -> Fam(f, <<Upto(MarkChars, 4), Len(Places25m)>>, TRUE, LexRuns)
    [] f = "C26l" -> Fam(f, <<Upto(NameChars, 3), Len(Places26l)>>, TRUE, LexRuns)
    \* (the short words alone)
    [] f = "C24L" -> Fam("C24l", <<Upto(TextChars, 2), Len(Places24l)>>, TRUE, LexRuns)
    [] f = "C24R" -> Fam("C24r", <<Upto(RegexChars, 2), Len(Places24r)>>, TRUE, LexRuns)
    [] f = "C24S" -> Fam("C24s", <<Upto(LayoutChars, 2), Len(Places24s)>>, TRUE, LexRuns)
    [] f = "C25L" -> Fam("C25l", <<Upto(CountChars, 2), Len(Places25l)>>, TRUE, LexRuns)
    [] f = "C25M" -> Fam("C25m", <<Upto(MarkChars, 2), Len(Places25m)>>, TRUE, LexRuns)
    [] f = "C26L" -> Fam("C26l", <<Upto(NameChars, 2), Len(Places26l)>>, TRUE, LexRuns)
    [] f = "C27S" -> Fam("C27s", <<Upto(LayoutChars, 2), Len(Places27s)>>, FALSE, AllWords(3))
    [] f = "C27P" -> Fam("C27p", <<Upto(PathChars, 2), 2>>, FALSE, AllWords(2))
    [] f = "C28V" -> Fam("C28v", <<Upto(VersionChars, 2), Len(Places28v)>>, TRUE, LexRuns)
    [] f = "C28A" -> Fam("C28a", <<Upto(MistakeChars, 2), Len(Places28a)>>, TRUE, LexRuns)
    [] f = "C28v" -> Fam(f, <<Upto(VersionChars, 3), Len(Places28v)>>, TRUE, LexRuns)
    [] f = "C28a" -> Fam(f, <<Upto(MistakeChars, 5), Len(Places28a)>>, TRUE, LexRuns)
    [] f = "C28e" -> Fam(f, <<Len(Bases28), 100, EditsAt, 100, EditsAt>>, TRUE, << <<>>, A1, B1, AB, <<97, 98, 97>> >>)
    [] f = "C27p" -> Fam(f, <<Upto(PathChars, 4), 2>>, FALSE, AllWords(2))
    [] f = "C27s" -> Fam(f, <<Upto(LayoutChars, 3), Len(Places27s)>>, FALSE, AllWords(3))
    [] f = "C27i" -> Fam(f, <<Words(Len(Lists27), 3), Len(Uses27), 4, 2 * Len(Own27) - 1>>, FALSE, AllWords(3))
    [] OTHER -> Fam(f, <<BaseEnds[Len(Bases28)]>>, TRUE, << <<>>, A1, B1, AB, <<97, 98, 97>> >>)

ScriptFamilySize(F) == ProductOf(F.dims, 1)

OneFile(s) == << [n |-> <<>>, s |-> s] >>
Optionally(q, i) == IF i = 0 THEN <<>> ELSE <<q[i]>>

\* The script, and its layout
Script24(d) ==
  LET first == Pattern24(1, d[1])
      second == CASE d[2] < 2 -> <<>> [] d[2] = 2 -> <<Cap(Df(MRe("b", "")))>> [] OTHER -> <<Cap(Definition("", "!", MId("A"), <<>>, NoRepeat))>>
  IN Scr(TRUE, <<Version>>, Header24, <<IF d[2] = 0 THEN Pattern(TRUE, <<>>, first.d) ELSE first>> \o second)
Script24d(d) ==
  LET kids == <<Pattern24(1, d[1]), Pattern24(1, d[2])>>
      i == d[3]
      p == CASE i \div 2 = 0 -> Df(MSw(kids)) [] i \div 2 = 1 -> Df(MPr(kids)) [] OTHER -> Df(MPr(<<kids[1], Bare(Df(MEq("b"))), kids[2]>>))
  IN Scr(TRUE, <<Version>>, Header24, <<Cap(p)>>)
Script25(d) ==
  LET p == Captured(d[5], Marked(d[1], d[2], d[3], Leaves25[d[4] + 1]))
      then == IF d[6] = 0 THEN <<>> ELSE <<Cap(Df(MEq("b")))>>
  IN Scr(TRUE, <<Version>>, Header25, <<p>> \o then)
Script25n(d) ==
  LET p == Captured(d[8], Marked(d[1], d[2], d[3], Leaves25[d[4] + 1]))
      q == Marked(d[5], d[6], d[7], MPr(<<Cap(Df(MEq("a"))), p>>))
  IN Scr(TRUE, <<Version>>, Header25, <<Cap(q), Cap(Df(MRe("b*", "")))>>)
Script26(d) ==
  LET some == Optionally(Statements26, d[1]) \o Optionally(Statements26, d[2]) \o Optionally(Statements26, d[3])
      missing(n, k) == IF \E m \in 1..Len(some) : some[m].n = T(n) THEN <<>> ELSE <<Statements26[k]>>
  IN Scr(TRUE, Headers26[IF d[6] < Len(Headers26) THEN d[6] + 1 ELSE 2],
         some \o (IF d[7] = 0 THEN <<>> ELSE missing("C", 5) \o missing("B", 3) \o missing("A", 1)),
         <<Patterns26[d[4] + 1]>> \o Optionally(Patterns26, d[5]))
Main27(d) == Scr(TRUE, <<Version>>, <<MainStatements27[d[1] + 1]>> \o Optionally(MainStatements27, d[2]), MainPatterns27[d[5] + 1])
Files27(d) ==
  << [n |-> T("main"), s |-> WriteScript(Main27(d), d[7] * 2)],
     [n |-> T("b"), s |-> WriteScript(Scr(TRUE, IF d[6] = 0 THEN <<Version>> ELSE <<Version, At("name", "R")>>, BStatements27[d[3] + 1],
                                          <<Cap(Df(MId("A"))), Bare(Df(MId("B")))>>), 1)],
     [n |-> T("d/c"), s |-> WriteScript(Scr(TRUE, <<Version>>, CStatements27[d[4] + 1], <<Cap(Df(MEq("a"))), Cap(Definition("?", "", MId("B"), <<>>, NoRepeat))>>), 0)],
     [n |-> T("d/e"), s |-> WriteScript(Scr(FALSE, <<>>, <<>>, <<Cap(Df(MEq("b")))>>), 0)] >>

ScriptCase(F, i) ==
  LET d == Digits(i, F.dims, 1)
      w == d[Len(d)]
      of(ast) == [inline |-> TRUE, files |-> OneFile(WriteScript(ast, w)), runs |-> F.runs, ast |-> <<ast>>]
      k == BaseOf(i)
      j == i - BaseEnds[k - 1]
  IN CASE F.f = "C24" -> of(Script24(d))
       [] F.f = "C24d" -> of(Script24d(d))
       [] F.f = "C25" -> of(Script25(d))
       [] F.f = "C25n" -> of(Script25n(d))
       [] F.f = "C26" -> of(Script26(d))
       [] F.f \in {"C27", "C27x"} -> [inline |-> FALSE, files |-> Files27(d), runs |-> F.runs, ast |-> <<Main27(d)>>]
       [] F.f = "C24l" -> Lexical(TextChars, 3, Places24l, d, TRUE)
       [] F.f = "C24r" -> Lexical(RegexChars, 3, Places24r, d, FALSE)
       [] F.f = "C24s" -> Lexical(LayoutChars, 3, Places24s, d, FALSE)
       [] F.f = "C25l" -> Lexical(CountChars, 4, Places25l, d, FALSE)
       [] F.f = "C25m" -> Lexical(MarkChars, 4, Places25m, d, FALSE)
       [] F.f = "C26l" -> Lexical(NameChars, 3, Places26l, d, FALSE)
       [] F.f = "C28v" -> Lexical(VersionChars, 3, Places28v, d, FALSE)
       [] F.f = "C28a" -> Lexical(MistakeChars, 5, Places28a, d, FALSE)
       [] F.f = "C28e" ->
          LET t == BaseText(d[1] + 1)
              u == Edited(t, d[2] % (Len(t) + 1), d[3])
          IN [inline |-> TRUE, files |-> OneFile(Edited(u, d[4] % (Len(u) + 1), d[5])), runs |-> F.runs, ast |-> <<>>]
       [] F.f = "C27p" -> [inline |-> FALSE, files |-> Files27p(WordOf(PathChars, d[1]), "(<A>)", d[2]), runs |-> F.runs, ast |-> <<>>]
       [] F.f = "C27s" -> [inline |-> FALSE, files |-> Files27s(Places27s[d[2] + 1], WordOf(LayoutChars, d[1])), runs |-> F.runs, ast |-> <<>>]
       [] F.f = "C27i" -> [inline |-> FALSE, files |-> Files27i(ListOf(d[1], Len(Lists27)), Uses27[d[2] + 1], d[3], d[4]), runs |-> F.runs, ast |-> <<>>]
       [] OTHER -> [inline |-> TRUE, files |-> OneFile(Edited(BaseText(k), j \div EditsAt, j % EditsAt)), runs |-> F.runs, ast |-> <<>>]
=============================================================================
