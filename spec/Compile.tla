------------------------------- MODULE Compile ------------------------------
(* The meaning of scripts: the grammar (as in Engine) that a syntax tree of  *)
(* Script denotes, and what is wrong with it if it denotes none.             *)
EXTENDS Script, Families, IOUtils

\* Finding (see known_findings.txt): (?'X'<...>) names tokens "Name", not "X"
NameBug == IOEnv.NAMEBUG = "1"

\* What is compiled so far: nodes, scopes, places of what is wrong (<<-1, -1>>: not known where),
\* and whether something is used that is not specified
Nothing == [g |-> <<>>, sc |-> <<>>, bad |-> <<>>, unk |-> FALSE]
Somewhere == <<-1, -1>>
Wrong(S, loc) == [S EXCEPT !.bad = Append(@, loc)]
Unspecified(S) == [S EXCEPT !.unk = TRUE]
Add(S, nd) == [S EXCEPT !.g = Append(@, nd)]
Last(S) == Len(S.g)
AddOver(S, nd) == Add(S, [nd EXCEPT !.ch = <<Last(S)>>])

-----------------------------------------------------------------------------
(* Regular expressions: a part of their syntax is specified *)

Unknown == [t |-> "unknown", alts |-> <<>>]
Invalid == [t |-> "err", alts |-> <<>>]

\* One character, possibly escaped: [ok, p, rs (ranges of code points), neg]
SpaceRanges == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>, <<8192, 8202>>, <<8232, 8233>>,
                  <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>> >>
DigitRanges == << <<48, 57>> >>
\* (of the letters beyond ASCII, the Latin ones)
WordRanges == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 687>> >>

CharSet(p, rs, neg) == [ok |-> TRUE, p |-> p, rs |-> rs, neg |-> neg]
NoCharSet == [ok |-> FALSE, p |-> 0, rs |-> <<>>, neg |-> FALSE]

IsPunctuation(c) == c \in 33..126 /\ ~IsLetter(c) /\ ~IsDigit(c)

ReadEscape(t, p) ==
  LET c == Byte(t, p + 1) IN
  CASE c = 100 -> CharSet(p + 2, DigitRanges, FALSE)
    [] c = 68 -> CharSet(p + 2, DigitRanges, TRUE)
    [] c = 119 -> CharSet(p + 2, WordRanges, FALSE)
    [] c = 87 -> CharSet(p + 2, WordRanges, TRUE)
    [] c = 115 -> CharSet(p + 2, SpaceRanges, FALSE)
    [] c = 83 -> CharSet(p + 2, SpaceRanges, TRUE)
    [] c = 110 -> CharSet(p + 2, << <<10, 10>> >>, FALSE)
    [] c = 116 -> CharSet(p + 2, << <<9, 9>> >>, FALSE)
    [] c \in {92, 46, 43, 42, 63, 40, 41, 124, 91, 93, 123, 125, 94, 36, 45} ->
       CharSet(p + 2, << <<c, c>> >>, FALSE)
    [] OTHER -> NoCharSet

\* The inside of [...], from p, with the ranges so far: [t, p, rs]
RECURSIVE ReadClass(_, _, _)
ReadClass(t, p, rs) ==
  LET c == Byte(t, p)
      one == IF c = 92 THEN ReadEscape(t, p)
             ELSE CharSet(p + CharLen(c), << <<Decode(t, p), Decode(t, p)>> >>, FALSE)
      to == IF Byte(t, one.p + 1) = 92 THEN ReadEscape(t, one.p + 1)
            ELSE CharSet(one.p + 1 + CharLen(Byte(t, one.p + 1)), << <<Decode(t, one.p + 1), Decode(t, one.p + 1)>> >>, FALSE)
      isRange == Byte(t, one.p) = 45 /\ Byte(t, one.p + 1) \notin {93, -1}
      from == one.rs[1][1]
  IN CASE c = -1 -> [t |-> "unknown", p |-> p, rs |-> rs]
       [] c = 93 /\ rs # <<>> -> [t |-> "ok", p |-> p + 1, rs |-> rs]
       [] c \in {93, 91, 38, 126, 45} -> [t |-> "unknown", p |-> p, rs |-> rs]
       [] ~one.ok \/ one.neg -> [t |-> "unknown", p |-> p, rs |-> rs]
       [] isRange /\ (~to.ok \/ to.neg \/ Len(to.rs) > 1 \/ Len(one.rs) > 1 \/ Byte(t, one.p + 1) = 45) ->
          [t |-> "unknown", p |-> p, rs |-> rs]
       [] isRange /\ to.rs[1][1] < from -> [t |-> "err", p |-> p, rs |-> rs]
       [] isRange -> ReadClass(t, to.p, Append(rs, <<from, to.rs[1][1]>>))
       [] OTHER -> ReadClass(t, one.p, rs \o one.rs)

\* Upper and lower case (of ASCII letters) are the same
RECURSIVE FoldRanges(_, _)
FoldRanges(rs, k) ==
  IF k > Len(rs) THEN <<>>
  ELSE LET lo == rs[k][1]
           hi == rs[k][2]
           l1 == Max2(lo, 97)
           h1 == Min2(hi, 122)
           l2 == Max2(lo, 65)
           h2 == Min2(hi, 90)
       IN << <<lo, hi>> >>
          \o (IF l1 <= h1 THEN << <<l1 - 32, h1 - 32>> >> ELSE <<>>)
          \o (IF l2 <= h2 THEN << <<l2 + 32, h2 + 32>> >> ELSE <<>>)
          \o FoldRanges(rs, k + 1)

\* A repetition at p: [t, p, min, max]
ReadCount(t, p) ==
  LET e == DigitsEnd(t, p + 1)
      f == DigitsEnd(t, e + 1)
      n == Cut(t, p + 1, e)
      m == Cut(t, e + 1, f)
      r(k, q, mn, mx) == [t |-> k, p |-> q, min |-> mn, max |-> mx]
  IN CASE Byte(t, p) = 42 -> r("ok", p + 1, 0, -1)
       [] Byte(t, p) = 43 -> r("ok", p + 1, 1, -1)
       [] Byte(t, p) = 63 -> r("ok", p + 1, 0, 1)
       [] Byte(t, p) # 123 -> r("ok", p, 1, 1)
       [] Len(n) = 0 \/ Len(n) > 2 \/ Len(m) > 2 -> r("unknown", p, 0, 0)
       [] Byte(t, e) = 125 -> r("ok", e + 1, NumberValue(n), NumberValue(n))
       [] Byte(t, e) # 44 \/ Byte(t, f) # 125 -> r("unknown", p, 0, 0)
       [] m = <<>> -> r("ok", f + 1, NumberValue(n), -1)
       [] NumberValue(m) < NumberValue(n) -> r("err", p, 0, 0)
       [] OTHER -> r("ok", f + 1, NumberValue(n), NumberValue(m))

Quantifiers == {42, 43, 63, 123}

\* From p on, with the complete alternatives and the items of this one
RECURSIVE ReadItems(_, _, _, _, _)
ReadItems(t, fl, p, alts, items) ==
  LET c == Byte(t, p)
      cls == ReadClass(t, IF Byte(t, p + 1) = 94 THEN p + 2 ELSE p + 1, <<>>)
      one == CASE c = 46 -> CharSet(p + 1, IF 115 \in fl THEN << <<0, 1114111>> >> ELSE << <<10, 10>> >>, 115 \notin fl)
               [] c = 92 -> ReadEscape(t, p)
               [] c = 91 -> IF cls.t = "ok" THEN CharSet(cls.p, cls.rs, Byte(t, p + 1) = 94) ELSE NoCharSet
               [] OTHER -> CharSet(p + CharLen(c), << <<Decode(t, p), Decode(t, p)>> >>, FALSE)
      q == ReadCount(t, one.p)
      lazy == q.p > one.p /\ Byte(t, q.p) = 63
      e == IF lazy THEN q.p + 1 ELSE q.p
      item == [t |-> "set", neg |-> one.neg, rs |-> IF 105 \in fl THEN FoldRanges(one.rs, 1) ELSE one.rs,
               min |-> q.min, max |-> q.max, lazy |-> IF 85 \in fl /\ q.p > one.p THEN ~lazy ELSE lazy]
  IN CASE c = -1 -> [t |-> "ok", alts |-> Append(alts, items)]
       [] c = 124 -> ReadItems(t, fl, p + 1, Append(alts, items), <<>>)
       [] c \in {42, 43, 63} /\ items = <<>> -> Invalid
       [] c \in {42, 43, 63, 123, 125, 93, 40, 41} -> Unknown
       [] c \in {94, 36} /\ (109 \in fl \/ Byte(t, p + 1) \in Quantifiers) -> Unknown
       [] c = 94 -> ReadItems(t, fl, p + 1, alts, Append(items, [t |-> "bol"]))
       [] c = 36 -> ReadItems(t, fl, p + 1, alts, Append(items, [t |-> "eol"]))
       [] c = 91 /\ cls.t # "ok" -> [t |-> cls.t, alts |-> <<>>]
       [] ~one.ok -> Unknown
       [] 105 \in fl /\ \E k \in 1..Len(one.rs) : one.rs[k][2] > 127 -> Unknown
       [] q.t # "ok" -> [t |-> q.t, alts |-> <<>>]
       [] e > one.p /\ Byte(t, e) \in Quantifiers -> Unknown
       [] OTHER -> ReadItems(t, fl, e, alts, Append(items, item))

CountOf(t, byte) == Cardinality({k \in 1..Len(t) : t[k] = byte})

RegexOf(t, flags) ==
  CASE t = <<>> -> Invalid
    [] \E k, m \in 1..Len(flags) : k < m /\ flags[k] = flags[m] -> Invalid
    [] CountOf(t, 40) # CountOf(t, 41) /\ CountOf(t, 92) = 0 /\ CountOf(t, 91) = 0 -> Invalid
    [] OTHER -> ReadItems(t, {flags[k] : k \in 1..Len(flags)}, 0, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Patterns *)

NameOf(t) == IF IsPrintable(t) THEN StringOf(t) ELSE "?"

\* Later ones replace earlier ones
RECURSIVE AttributesOf(_, _)
AttributesOf(at, k) ==
  IF k = 0 THEN NoAttributes ELSE (NameOf(at[k][1]) :> at[k][2]) @@ AttributesOf(at, k - 1)

WithAttributes(at) ==
  Plain("Map") @@ [sf |-> "attrs", ss |-> "", sv |-> <<>>, ff |-> "none", fm |-> <<>>, ats |-> AttributesOf(at, Len(at))]

RECURSIVE CheckAttributes(_, _, _)
CheckAttributes(S, at, k) ==
  IF k > Len(at) THEN S
  ELSE CheckAttributes(CASE ~IsPrintable(at[k][1]) \/ at[k][1] = T("_") -> Unspecified(S)
                         [] OTHER -> S, at, k + 1)

Bounds(rep) ==
  CASE rep.t = "*" -> <<0, -1>>
    [] rep.t = "+" -> <<1, -1>>
    [] rep.t = "n" -> <<0, NumberValue(rep.lo)>>
    [] rep.t = "n," -> <<NumberValue(rep.lo), -1>>
    [] OTHER -> <<NumberValue(rep.lo), NumberValue(rep.hi)>>

\* Numbers that are too large to be judged here
TooLarge(t) == Len(t) > 9

AddRepeat(S, rep, loc) ==
  CASE rep.t = "" -> S
    [] TooLarge(rep.lo) \/ TooLarge(rep.hi) -> Unspecified(S)
    [] rep.t = "n,m" /\ Bounds(rep)[2] < Bounds(rep)[1] -> Wrong(S, loc)
    [] Bounds(rep)[1] > 60 -> Unspecified(S)
    [] OTHER -> AddOver(S, LoopOf(Bounds(rep)[1], Bounds(rep)[2]))

AddMark(S, mark) ==
  CASE mark = "?" -> AddOver(S, Plain("Optional"))
    [] mark = "!" -> AddOver(S, Plain("Not"))
    [] OTHER -> S

Rename(S, name) == IF name = "" THEN S ELSE [S EXCEPT !.g = SetName(@, Len(@), name)]

RECURSIVE CompileMatcher(_, _, _)
RECURSIVE CompileDefinition(_, _, _, _, _)
RECURSIVE CompilePattern(_, _, _)
RECURSIVE CompileAll(_, _, _, _, _)

\* ids: the nodes of the patterns before; locs: one place for all, or one for each
CompileAll(S, ps, k, locs, ids) ==
  IF k > Len(ps) THEN [S |-> S, ids |-> ids]
  ELSE LET x == CompilePattern(S, ps[k], locs[Min2(k, Len(locs))])
       IN CompileAll(x, ps, k + 1, locs, Append(ids, Last(x)))

CompileMatcher(S, m, loc) ==
  CASE m.t = "eq" -> IF m.s[1] = <<>> THEN Wrong(Add(S, Plain("Null")), loc) ELSE Add(S, Eq(m.s[1]))
    [] m.t = "re" ->
       LET x == RegexOf(m.s[1], m.s[2])
       IN CASE x.t = "ok" -> Add(S, Re(x.alts))
            [] x.t = "err" -> Wrong(Add(S, Plain("Null")), loc)
            [] OTHER -> Unspecified(Add(S, Plain("Null")))
    [] m.t = "sq" ->
       IF m.s[1] = <<>> \/ m.s[2] = <<>> THEN Wrong(Add(S, Plain("Null")), loc)
       ELSE Add(S, Seqn(m.s[1], m.s[2], m.s[3]))
    [] m.t = "id" -> Add(S, RefTo(NameOf(m.s[1])))
    [] m.ch = <<>> -> Unspecified(Add(S, Plain("Null")))
    [] OTHER ->
       LET x == CompileAll(S, m.ch, 1, <<loc>>, <<>>)
       IN Add(x.S, [Plain(IF m.t = "sw" THEN "Switch" ELSE "Program") EXCEPT !.ch = x.ids])

\* From the inside out: the matcher with its name, attributes, inner mark, repetition, outer mark, and,
\* outside of parentheses, without the token
CompileDefinition(S, d, name, cap, loc) ==
  LET A == Rename(CheckAttributes(CompileMatcher(S, d.m, loc), d.at, 1), name)
      B == IF d.at = <<>> THEN A ELSE AddOver(A, WithAttributes(d.at))
      C == AddMark(B, d.io)
      D == AddRepeat(C, d.rep, loc)
      E == AddMark(D, d.oo)
  IN IF cap THEN E ELSE AddOver(E, Plain("Discard"))

CompilePattern(S, p, loc) ==
  LET S1 == IF p.nm # <<>> /\ ~IsPrintable(p.nm[1]) THEN Unspecified(S) ELSE S
      name == IF p.nm = <<>> THEN "" ELSE IF NameBug THEN "Name" ELSE NameOf(p.nm[1])
  IN CompileDefinition(S1, p.d, name, p.cap, loc)

-----------------------------------------------------------------------------
(* Files.  A file is [n |-> path, s |-> text]; the paths of imports are      *)
(* relative to the directory of the file that imports                        *)

RECURSIVE Split(_, _, _)
Split(t, k, part) ==
  CASE k > Len(t) -> <<part>>
    [] t[k] = 47 -> <<part>> \o Split(t, k + 1, <<>>)
    [] OTHER -> Split(t, k + 1, Append(part, t[k]))
Parts(t) == SelectSeq(Split(t, 1, <<>>), LAMBDA x : x # <<>>)

Init1(q) == SubSeq(q, 1, Len(q) - 1)
IsDirectory(files, dir) ==
  dir = <<>> \/ \E k \in 1..Len(files) : LET q == Parts(files[k].n) IN Len(q) > Len(dir) /\ SubSeq(q, 1, Len(dir)) = dir

\* [ok, q] the parts of the path that parts denote, seen from directory dir; unknown: outside of the files
RECURSIVE Walk(_, _, _, _)
Walk(files, dir, parts, k) ==
  CASE k > Len(parts) -> [t |-> "ok", q |-> dir]
    [] ~IsDirectory(files, dir) -> [t |-> "none", q |-> dir]
    [] parts[k] = T(".") -> Walk(files, dir, parts, k + 1)
    [] parts[k] = T("..") -> IF dir = <<>> THEN [t |-> "unknown", q |-> dir] ELSE Walk(files, Init1(dir), parts, k + 1)
    [] OTHER -> Walk(files, Append(dir, parts[k]), parts, k + 1)

FilesAt(files, q) == {k \in 1..Len(files) : Parts(files[k].n) = q}

RECURSIVE CompileFile(_, _, _, _)
RECURSIVE CompileStatements(_, _, _, _, _, _, _)
RECURSIVE BindImports(_, _, _, _, _)

\* Names of the file x (a compiled file) for the importing file.  [S, bs]
ScopeVariable(bs, name) ==
  LET hits == {k \in 1..Len(bs) : bs[k].n = name}
  IN IF hits = {} THEN 0 ELSE bs[CHOOSE k \in hits : \A m \in hits : m <= k].i

BindImports(S, ids, k, x, bs) ==
  IF k > Len(ids) THEN [S |-> S, bs |-> bs]
  ELSE LET from == NameOf(ids[k][1])
           to == NameOf(ids[k][2])
           id == ScopeVariable(x.bs, from)
           renamed == AddOver(Add(S, Plain("Null")), MapOf("name", to, <<>>, "none", <<>>))
           R1 == [renamed EXCEPT !.g[Last(renamed)].ch = <<id>>]
           R2 == AddOver(R1, Scoped(x.scope))
       IN CASE from = "_" /\ to = "_" -> [S |-> Wrong(S, Somewhere), bs |-> bs]
            \* (the pattern of the file, which has its own scope)
            [] from = "_" ->
               LET Q == [renamed EXCEPT !.g[Last(renamed)].ch = <<x.root>>]
               IN BindImports(Q, ids, k + 1, x, Append(bs, BindM(to, Last(Q))))
            [] id = 0 -> [S |-> Wrong(S, Somewhere), bs |-> bs]
            [] OTHER -> BindImports(R2, ids, k + 1, x, Append(bs, BindM(to, Last(R2))))

\* st: the statements of file stack[1] from k on; bs: the names that are bound so far
CompileStatements(files, stack, S, st, locs, k, bs) ==
  IF k > Len(st) THEN [S |-> S, bs |-> bs]
  ELSE LET x == st[k]
           name == NameOf(x.n)
           go(S1, bs1) == CompileStatements(files, stack, S1, st, locs, k + 1, bs1)
           S2 == Add(S, RefTo(NameOf(x.r)))
           S3 == CompileDefinition(S, x.d[1], name, TRUE, locs[k])
           here == IF stack = <<0>> THEN <<>> ELSE Init1(Parts(files[stack[1]].n))
           w == Walk(files, here, Parts(x.path), 1)
           hits == FilesAt(files, w.q)
           target == CHOOSE m \in hits : TRUE
           S4 == CompileFile(files, <<target>> \o stack, S, "")
           S5 == BindImports(S4.S, x.ids, 1, S4, bs)
       IN CASE x.t = "id" -> go(S2, Append(bs, BindM(name, Last(S2))))
            [] x.t = "def" -> go(S3, Append(bs, BindM(name, Last(S3))))
            [] stack = <<0>> -> go(Wrong(S, locs[k]), bs)
            [] x.ids = <<>> \/ w.t = "unknown" \/ (x.path # <<>> /\ x.path[1] = 47) -> go(Unspecified(S), bs)
            \* (with a / at its end, it would have to be a directory)
            [] w.t = "none" \/ hits = {} \/ x.path[Len(x.path)] = 47 -> go(Wrong(S, Somewhere), bs)
            [] \E m \in 1..Len(stack) : stack[m] = target -> go(Wrong(S, Somewhere), bs)
            [] S4.S.bad # <<>> -> go(S4.S, bs)
            [] OTHER -> go(S5.S, S5.bs)

\* The number of the attribute that gives the version, or 0
VersionAt(at) ==
  LET hits == {k \in 1..Len(at) : at[k][1] = T("version")}
  IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A m \in hits : m <= k

IsVersion(t) ==
  LET d == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
  IN d # <<>> /\ \A k \in 1..Len(d) : IsDigit(d[k])

CheckHeader(S, x) ==
  LET k == VersionAt(x.v.at)
      v == x.v.at[k][2]
      S1 == CheckAttributes(S, x.v.at, 1)
  IN CASE ~x.v.hd -> S
       \* (a header without attributes is not recognized as one: the error is not located)
       [] x.v.at = <<>> -> Wrong(S1, Somewhere)
       [] k = 0 -> Wrong(S1, x.hr)
       [] ~IsVersion(v) -> Wrong(S1, x.ar[k])
       [] Len(v) > 18 -> Unspecified(S1)
       [] OTHER -> S1

HeaderName(at, name) ==
  LET hits == {k \in 1..Len(at) : at[k][1] = T("name")}
  IN IF hits = {} THEN name ELSE NameOf(at[CHOOSE k \in hits : \A m \in hits : m <= k][2])

\* What is wrong with the text as a whole
CheckEnd(S, s, x) ==
  CASE x.f # <<>> -> Wrong(S, x.f)
    [] ~x.some -> Wrong(S, Somewhere)
    [] x.end < Len(s) -> Wrong(S, <<x.end, Len(s)>>)
    [] OTHER -> S

\* A script: [S, root, scope, bs].  stack: the numbers of the files that are being compiled, this
\* one first; <<0>> for a text that is not in a file
CompileText(files, stack, S, s, name) ==
  LET x == ReadScript(s)
      scope == Len(S.sc) + 1
      S0 == CheckEnd(CheckHeader([S EXCEPT !.sc = Append(@, << <<>> >>), !.bad = @ \o x.w], x), s, x)
      \* (after an error in the syntax, what could be read is looked at, too, unless that ended the reading)
      some == x.some /\ x.f = <<>>
      A == IF ~some THEN [S |-> S0, bs |-> <<>>]
           ELSE CompileStatements(files, stack, S0, x.v.st, x.sr, 1, <<>>)
      B == IF ~some THEN [S |-> S0, ids |-> <<>>] ELSE CompileAll(A.S, x.v.ps, 1, x.pr, <<>>)
      C == Add(B.S, [Plain("Program") EXCEPT !.ch = B.ids])
      D == AddOver(AddOver(C, Plain("Flatten")), Scoped(scope))
      rootName == HeaderName(x.v.at, name)
      F == AddOver(D, Named("Program", rootName))
      G == IF \E k \in 1..Len(x.v.at) : x.v.at[k][1] = T("name") /\ ~IsPrintable(x.v.at[k][2])
           THEN Unspecified(F) ELSE F
  IN [S |-> [G EXCEPT !.sc[scope] = <<A.bs>>], root |-> Last(G), scope |-> scope, bs |-> A.bs]

CompileFile(files, stack, S, name) ==
  CompileText(files, stack, S, files[stack[1]].s,
              IF name = "" THEN NameOf(files[stack[1]].n) ELSE name)
=============================================================================
