-------------------------------- MODULE Script ------------------------------
(* The script language: its syntax, as a parser from texts to syntax trees   *)
(* (Read...), and as a writer of texts (Write...).  Neither is derived from  *)
(* the implementation's own grammar of scripts, which is written in terms of *)
(* the engine; both say what the language is.                                *)
(*                                                                           *)
(* Syntax trees:                                                             *)
(*   matcher    [t, s, ch]   t: "eq" <<text>>, "re" <<expression, flags>>,   *)
(*                           "sq" <<start, end, escape>>, "id" <<name>>,     *)
(*                           "sw" and "pr" with patterns ch                  *)
(*   definition [oo, io, m, at, rep]  marks outside and inside ("", "?","!"),*)
(*                           attributes <<name, value>>, repetition          *)
(*   pattern    [cap, nm, d] captured, name (none or one), definition        *)
(*   statement  [t, n, r, d, ids, path]  t: "id" n = r, "def" n = d,         *)
(*                           "imp" the pairs ids from path                   *)
(*   script     [hd, at, st, ps]  header or not, its attributes, statements, *)
(*                           patterns                                        *)
EXTENDS Text, Chars

\* What a reader returns: the place after what was read, and its meaning; w: the places of mistakes
\* in what was read, after which reading goes on; f: the place of the mistake that ended it, if any
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v, w |-> <<>>, f |-> <<>>]
Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>, w |-> <<>>, f |-> <<>>]
Ended(f) == [Bad EXCEPT !.f = f]
But(w, x) == [x EXCEPT !.w = w]
\* Nothing, because of x
Without(x) == Ended(x.f)

Byte(s, p) == IF p < Len(s) THEN s[p + 1] ELSE -1
Looking(s, p, t) == StartsAt(s, p, Len(s), t)

SpaceBeyond == {133, 160, 5760} \cup 8192..8202 \cup {8232, 8233, 8239, 8287, 12288}
IsSpace(c) == c \in 9..13 \cup {32} \/ (c > 127 /\ c \in SpaceBeyond)

RECURSIVE SkipSpace(_, _)
SkipSpace(s, p) ==
  IF p < Len(s) /\ IsSpace(Decode(s, p)) THEN SkipSpace(s, p + CharLen(s[p + 1])) ELSE p

\* The same within a line
RECURSIVE SkipBlank(_, _)
SkipBlank(s, p) ==
  IF p < Len(s) /\ Decode(s, p) \notin {10, 13} /\ IsSpace(Decode(s, p))
  THEN SkipBlank(s, p + CharLen(s[p + 1])) ELSE p

IsLetter(b) == b \in 65..90 \/ b \in 97..122
IsNameStart(b) == IsLetter(b) \/ b \in {36, 95}
IsNameByte(b) == IsNameStart(b) \/ b \in 48..57
\* (letters beyond ASCII also are; which characters are letters is left open, such names are not judged)
IsAttributeChar(c) == IsLetter(c) \/ c \in 48..57 \/ c \in {95, 43} \/ (c > 127 /\ ~IsSpace(c))

RECURSIVE NameEnd(_, _)
NameEnd(s, p) == IF IsNameByte(Byte(s, p)) THEN NameEnd(s, p + 1) ELSE p
RECURSIVE AttributeNameEnd(_, _)
AttributeNameEnd(s, p) ==
  IF p < Len(s) /\ IsAttributeChar(Decode(s, p)) THEN AttributeNameEnd(s, p + CharLen(s[p + 1])) ELSE p
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, p) == IF IsDigit(Byte(s, p)) THEN DigitsEnd(s, p + 1) ELSE p

Cut(s, p, q) == SubSeq(s, p + 1, q)

ReadName(s, p) ==
  IF IsNameStart(Byte(s, p)) THEN LET e == NameEnd(s, p) IN Good(e, Cut(s, p, e)) ELSE Bad

\* Quoted: 'text', in which \ takes the next character as it is
RECURSIVE QuotedRest(_, _, _)
QuotedRest(s, p, acc) ==
  CASE p >= Len(s) -> Bad
    [] s[p + 1] = 39 -> Good(p + 1, acc)
    [] s[p + 1] = 92 ->
       IF p + 1 >= Len(s) THEN Bad
       ELSE LET e == p + 1 + CharLen(s[p + 2]) IN QuotedRest(s, e, acc \o Cut(s, p + 1, e))
    [] OTHER -> LET e == p + CharLen(s[p + 1]) IN QuotedRest(s, e, acc \o Cut(s, p, e))

ReadQuoted(s, p) == IF Byte(s, p) = 39 THEN QuotedRest(s, p + 1, <<>>) ELSE Bad

\* The place of the end of a regular expression (the "/"), or -1; inClass: within [...]
RECURSIVE RegexEnd(_, _, _)
RegexEnd(s, p, inClass) ==
  CASE p >= Len(s) -> -1
    [] s[p + 1] = 92 ->
       IF p + 1 >= Len(s) \/ (~inClass /\ s[p + 2] = LF) THEN -1
       ELSE RegexEnd(s, p + 1 + CharLen(s[p + 2]), inClass)
    [] inClass -> RegexEnd(s, p + CharLen(s[p + 1]), s[p + 1] # 93)
    [] s[p + 1] = 47 -> p
    [] OTHER -> RegexEnd(s, p + CharLen(s[p + 1]), s[p + 1] = 91)

RECURSIVE FlagsEnd(_, _)
FlagsEnd(s, p) == IF Byte(s, p) \in {105, 109, 115, 85} THEN FlagsEnd(s, p + 1) ELSE p

Matcher(t, s, ch) == [t |-> t, s |-> s, ch |-> ch]

ReadRegex(s, p) ==
  IF Byte(s, p) # 47 THEN Bad
  ELSE LET q == RegexEnd(s, p + 1, FALSE) IN
       IF q = -1 THEN Bad
       ELSE LET e == FlagsEnd(s, q + 1)
            IN Good(e, Matcher("re", <<Cut(s, p + 1, q), Cut(s, q + 1, e)>>, <<>>))

ReadEquals(s, p) ==
  IF Byte(s, p) # 61 THEN Bad
  ELSE LET x == ReadQuoted(s, p + 1) IN IF x.ok THEN Good(x.p, Matcher("eq", <<x.v>>, <<>>)) ELSE Bad

\* n quoted texts with commas between them
RECURSIVE ReadList(_, _, _, _)
ReadList(s, p, n, acc) ==
  LET x == ReadQuoted(s, p)
      c == SkipSpace(s, x.p)
  IN CASE ~x.ok -> Bad
       [] n = 1 -> Good(x.p, Append(acc, x.v))
       [] Byte(s, c) # 44 -> Bad
       [] OTHER -> ReadList(s, SkipSpace(s, c + 1), n - 1, Append(acc, x.v))

ReadSequence(s, p) ==
  IF Byte(s, p) # 37 THEN Bad
  ELSE LET x == ReadList(s, SkipSpace(s, p + 1), 3, <<>>)
       IN IF x.ok THEN Good(x.p, Matcher("sq", x.v, <<>>)) ELSE Bad

ReadReference(s, p) ==
  LET x == ReadName(s, p) IN IF x.ok THEN Good(x.p, Matcher("id", <<x.v>>, <<>>)) ELSE Bad

\* A value that is not in quotes: up to the next space or quote
RECURSIVE UnquotedEnd(_, _)
UnquotedEnd(s, p) ==
  IF p < Len(s) /\ s[p + 1] # 39 /\ ~IsSpace(Decode(s, p)) THEN UnquotedEnd(s, p + CharLen(s[p + 1])) ELSE p

\* name='value' name='value' ...  Names that begin with _ are mistakes (r: where each attribute is)
RECURSIVE ReadAttributes(_, _, _, _, _)
ReadAttributes(s, p, acc, r, w) ==
  LET e == AttributeNameEnd(s, p)
      q == SkipBlank(s, e)
      b == SkipBlank(s, q + 1)
      x == ReadQuoted(s, b)
      u == UnquotedEnd(s, b)
      w1 == IF e > p + 1 /\ Byte(s, p) = 95 THEN Append(w, <<p, e>>) ELSE w
  IN CASE e = p \/ Byte(s, q) # 61 -> But(w, Good(p, [at |-> acc, ar |-> r]))
       [] u > b -> Ended(IF \A k \in (p + 1)..e : s[k] < 128 THEN <<b, u>> ELSE <<-1, -1>>)
       [] x.ok -> ReadAttributes(s, SkipSpace(s, x.p), Append(acc, <<Cut(s, p, e), x.v>>), Append(r, <<p, x.p>>), w1)
       [] OTHER -> But(w, Good(p, [at |-> acc, ar |-> r]))

NoRepeat == [t |-> "", lo |-> <<>>, hi |-> <<>>]

\* {n} {n,} {n,m}
ReadRange(s, p) ==
  LET a == SkipBlank(s, p + 1)
      b == DigitsEnd(s, a)
      c == SkipBlank(s, b)
      comma == Byte(s, c) = 44
      d == SkipBlank(s, IF comma THEN c + 1 ELSE c)
      e == DigitsEnd(s, d)
      f == SkipBlank(s, e)
      t == CASE ~comma -> "n" [] e = d -> "n," [] OTHER -> "n,m"
  IN CASE b = a -> Bad
       [] Byte(s, f) # 125 -> Bad
       \* a second number without a comma says nothing
       [] OTHER -> Good(f + 1, [t |-> t, lo |-> Cut(s, a, b), hi |-> IF comma THEN Cut(s, d, e) ELSE <<>>])

ReadRepeat(s, p) ==
  CASE Byte(s, p) = 42 -> Good(p + 1, [NoRepeat EXCEPT !.t = "*"])
    [] Byte(s, p) = 43 -> Good(p + 1, [NoRepeat EXCEPT !.t = "+"])
    [] Byte(s, p) = 123 /\ ReadRange(s, p).ok -> ReadRange(s, p)
    [] OTHER -> Good(p, NoRepeat)

Mark(s, p) == CASE Byte(s, p) = 63 -> "?" [] Byte(s, p) = 33 -> "!" [] OTHER -> ""

Definition(oo, io, m, at, rep) == [oo |-> oo, io |-> io, m |-> m, at |-> at, rep |-> rep]
Pattern(cap, nm, d) == [cap |-> cap, nm |-> nm, d |-> d]

RECURSIVE ReadMatcher(_, _)
RECURSIVE ReadDefinition(_, _)
RECURSIVE ReadPattern(_, _)
RECURSIVE ReadChoice(_, _, _, _)
RECURSIVE ReadPatterns(_, _, _, _)

\* [a|b|c] (also with a | at the end)
ReadChoice(s, p, acc, w) ==
  LET x == ReadPattern(s, SkipSpace(s, p))
      q == SkipSpace(s, x.p)
      z == SkipSpace(s, p)
  IN CASE Byte(s, z) = 93 -> But(w, Good(z + 1, acc))
       [] ~x.ok -> Without(x)
       [] Byte(s, q) = 124 -> ReadChoice(s, q + 1, Append(acc, x.v), w \o x.w)
       [] Byte(s, q) = 93 -> But(w \o x.w, Good(q + 1, Append(acc, x.v)))
       [] OTHER -> Bad

\* {a b c}
ReadPatterns(s, p, acc, w) ==
  LET z == SkipSpace(s, p)
      x == ReadPattern(s, z)
  IN CASE Byte(s, z) = 125 -> But(w, Good(z + 1, acc))
       [] x.ok -> ReadPatterns(s, x.p, Append(acc, x.v), w \o x.w)
       [] OTHER -> Without(x)

ReadMatcher(s, p) ==
  CASE Byte(s, p) = 47 -> ReadRegex(s, p)
    [] Byte(s, p) = 61 -> ReadEquals(s, p)
    [] Byte(s, p) = 37 -> ReadSequence(s, p)
    [] Byte(s, p) = 91 ->
       LET x == ReadChoice(s, p + 1, <<>>, <<>>) IN IF x.ok THEN But(x.w, Good(x.p, Matcher("sw", <<>>, x.v))) ELSE Without(x)
    [] Byte(s, p) = 123 ->
       LET x == ReadPatterns(s, p + 1, <<>>, <<>>) IN IF x.ok THEN But(x.w, Good(x.p, Matcher("pr", <<>>, x.v))) ELSE Without(x)
    [] OTHER -> ReadReference(s, p)

\* Both marks at once are a mistake (after which one is read as usual)
Both(s, p) == LET x == Mark(s, p) y == Mark(s, p + 1) IN x # "" /\ y # "" /\ x # y
AfterBoth(s, p) == IF Both(s, p) THEN p + 2 ELSE p
MarksAt(s, p) == IF Both(s, p) THEN << <<p, p + 2>> >> ELSE <<>>

ReadDefinition(s, p) ==
  LET p1 == AfterBoth(s, p)
      oo == Mark(s, p1)
      a == IF oo = "" THEN p1 ELSE p1 + 1
      a1 == AfterBoth(s, a + 1)
      io == Mark(s, a1)
      b == IF io = "" THEN a1 ELSE a1 + 1
      m == ReadMatcher(s, SkipSpace(s, b))
      at == ReadAttributes(s, SkipSpace(s, m.p), <<>>, <<>>, <<>>)
      rep == ReadRepeat(s, at.p + 1)
  IN CASE Byte(s, a) # 60 -> Bad
       [] ~m.ok -> Without(m)
       [] ~at.ok -> Without(at)
       [] Byte(s, at.p) # 62 -> Bad
       [] OTHER -> But(MarksAt(s, p) \o MarksAt(s, a + 1) \o m.w \o at.w, Good(rep.p, Definition(oo, io, m.v, at.v.at, rep.v)))

ReadPattern(s, p) ==
  IF Byte(s, p) # 40
  THEN LET d == ReadDefinition(s, p) IN IF d.ok THEN But(d.w, Good(d.p, Pattern(FALSE, <<>>, d.v))) ELSE Without(d)
  ELSE LET a == SkipSpace(s, p + 1)
           n == IF Byte(s, a) = 63 THEN ReadQuoted(s, a + 1) ELSE Bad
           d == ReadDefinition(s, IF n.ok THEN SkipSpace(s, n.p) ELSE a)
           z == SkipSpace(s, d.p)
       IN CASE ~d.ok -> Without(d)
            [] Byte(s, z) # 41 -> Bad
            [] OTHER -> But(d.w, Good(z + 1, Pattern(TRUE, IF n.ok THEN <<n.v>> ELSE <<>>, d.v)))

RECURSIVE CommentEnd(_, _)
CommentEnd(s, p) == IF p < Len(s) /\ s[p + 1] \notin {LF, CR} THEN CommentEnd(s, p + 1) ELSE p

Statement(t, n, r, d, ids, path) == [t |-> t, n |-> n, r |-> r, d |-> d, ids |-> ids, path |-> path]

\* {A, B as C}
RECURSIVE ReadImports(_, _, _)
ReadImports(s, p, acc) ==
  LET z == SkipSpace(s, p)
      x == ReadName(s, z)
      a == SkipSpace(s, x.p)
      b == SkipSpace(s, a + 2)
      y == ReadName(s, b)
      as == x.ok /\ a > x.p /\ Looking(s, a, T("as")) /\ b > a + 2 /\ y.ok
      e == IF as THEN y.p ELSE x.p
      n == IF as THEN y.v ELSE x.v
  IN CASE Byte(s, z) = 125 -> Good(z + 1, acc)
       [] ~x.ok -> Bad
       [] OTHER -> ReadImports(s, IF Byte(s, e) = 44 THEN e + 1 ELSE e, Append(acc, <<x.v, n>>))

ReadImport(s, p) ==
  LET a == SkipBlank(s, p + 6)
      x == ReadImports(s, a + 1, <<>>)
      b == SkipBlank(s, x.p)
      y == ReadQuoted(s, SkipBlank(s, b + 4))
  IN CASE ~Looking(s, p, T("import")) -> Bad
       [] Byte(s, a) # 123 -> Bad
       [] ~x.ok -> Bad
       [] ~Looking(s, b, T("from")) -> Bad
       [] ~y.ok -> Bad
       [] OTHER -> Good(y.p, Statement("imp", <<>>, <<>>, <<>>, x.v, y.v))

ReadAssignment(s, p) ==
  LET n == ReadName(s, p)
      a == SkipSpace(s, n.p)
      b == SkipSpace(s, a + 1)
      r == ReadName(s, b)
      d == ReadDefinition(s, b)
  IN CASE ~n.ok -> Bad
       [] Byte(s, a) # 61 -> Bad
       [] r.ok -> Good(r.p, Statement("id", n.v, r.v, <<>>, <<>>, <<>>))
       [] d.ok -> But(d.w, Good(d.p, Statement("def", n.v, <<>>, <<d.v>>, <<>>, <<>>)))
       [] OTHER -> Without(d)

\* Where the value of an assignment begins
ValueStart(s, p) == SkipSpace(s, SkipSpace(s, NameEnd(s, p)) + 1)

\* Statements and comments; with the ranges of imports, and of what is assigned
RECURSIVE ReadStatements(_, _, _, _, _)
ReadStatements(s, p, acc, at, w) ==
  LET a == SkipSpace(s, p)
      x == ReadImport(s, a)
      y == ReadAssignment(s, a)
  IN CASE Byte(s, a) = 35 -> ReadStatements(s, CommentEnd(s, a), acc, at, w)
       [] x.ok -> ReadStatements(s, x.p, Append(acc, x.v), Append(at, <<a, x.p>>), w)
       [] y.ok -> ReadStatements(s, y.p, Append(acc, y.v), Append(at, <<ValueStart(s, a), y.p>>), w \o y.w)
       [] y.f # <<>> -> Without(y)
       [] OTHER -> But(w, Good(a, [st |-> acc, sr |-> at]))

HeaderStart == T("<!--[adextopa")
HeaderEnd == T("-->")

ReadHeader(s, p) ==
  LET at == ReadAttributes(s, SkipBlank(s, p + Len(HeaderStart)), <<>>, <<>>, <<>>)
      x == ReadStatements(s, at.p + 1, <<>>, <<>>, <<>>)
  IN CASE ~Looking(s, p, HeaderStart) -> Bad
       [] ~at.ok -> Without(at)
       [] Byte(s, at.p) # 93 -> Bad
       [] ~x.ok -> Without(x)
       [] ~Looking(s, x.p, HeaderEnd) -> Bad
       [] OTHER -> But(at.w \o x.w, Good(x.p + 3, [at |-> at.v.at, ar |-> at.v.ar, st |-> x.v.st, sr |-> x.v.sr]))

\* Patterns and comments; with the ranges of the patterns
RECURSIVE ReadBody(_, _, _, _, _)
ReadBody(s, p, acc, at, w) ==
  LET a == SkipSpace(s, p)
      x == ReadPattern(s, a)
  IN CASE Byte(s, a) = 35 -> ReadBody(s, CommentEnd(s, a), acc, at, w)
       [] x.ok -> ReadBody(s, x.p, Append(acc, x.v), Append(at, <<a, x.p>>), w \o x.w)
       [] OTHER -> But(w, [Good(a, [ps |-> acc, pr |-> at]) EXCEPT !.f = x.f])

RECURSIVE SkipComments(_, _)
SkipComments(s, p) ==
  LET a == SkipSpace(s, p) IN IF Byte(s, a) = 35 THEN SkipComments(s, CommentEnd(s, a)) ELSE a

\* v: the syntax tree; sr, pr, hr: where statements, patterns, and the header are;
\* end: where the last thing of the script ends (what follows does not belong to the language);
\* ok: there is something, and nothing follows; w: the places of mistakes in it; f: the mistake
\* that ended the reading, if there is one (then the script is not looked at any further);
\* ar: the places of the attributes of the header
ReadScript(s) ==
  LET a == SkipComments(s, 0)
      h == ReadHeader(s, a)
      b == ReadBody(s, IF h.ok THEN h.p ELSE a, <<>>, <<>>, <<>>)
  IN [v |-> [hd |-> h.ok, at |-> IF h.ok THEN h.v.at ELSE <<>>, st |-> IF h.ok THEN h.v.st ELSE <<>>, ps |-> b.v.ps],
      sr |-> IF h.ok THEN h.v.sr ELSE <<>>, pr |-> b.v.pr, hr |-> <<a, h.p>>,
      ar |-> IF h.ok THEN h.v.ar ELSE <<>>,
      w |-> h.w \o b.w, f |-> IF h.f # <<>> THEN h.f ELSE b.f,
      end |-> b.p, some |-> h.ok \/ b.v.ps # <<>>,
      ok |-> (h.ok \/ b.v.ps # <<>>) /\ b.p = Len(s)]

-----------------------------------------------------------------------------
(* Writing: the text of a syntax tree.  w is the layout: 0 as short as       *)
(* possible, 1 blanks wherever they may be, 2 line ends and comments, too.   *)

Gap(w) == CASE w = 0 -> <<>> [] w = 1 -> T(" ") [] OTHER -> <<32, 10, 9>>
Blank(w) == IF w = 0 THEN <<>> ELSE T("  ")
BigGap(w) == CASE w = 0 -> <<>> [] w = 1 -> T(" ") [] OTHER -> <<32>> \o T("# <x> '") \o <<13, 10>>

RECURSIVE Escaped(_)
Escaped(t) ==
  IF t = <<>> THEN <<>>
  ELSE (IF t[1] \in {39, 92} THEN <<92, t[1]>> ELSE <<t[1]>>) \o Escaped(Tail(t))
Quoted(t) == <<39>> \o Escaped(t) \o <<39>>

RECURSIVE WriteAttributes(_, _, _)
WriteAttributes(at, k, w) ==
  IF k > Len(at) THEN <<>>
  ELSE at[k][1] \o Blank(w) \o T("=") \o Blank(w) \o Quoted(at[k][2])
       \o (IF k < Len(at) THEN T(" ") ELSE <<>>) \o Gap(w) \o WriteAttributes(at, k + 1, w)

WriteRepeat(r, w) ==
  CASE r.t \in {"", "*", "+"} -> T(r.t)
    [] r.t = "n" -> T("{") \o Blank(w) \o r.lo \o Blank(w) \o T("}")
    [] OTHER -> T("{") \o Blank(w) \o r.lo \o Blank(w) \o T(",") \o Blank(w) \o r.hi \o Blank(w) \o T("}")

RECURSIVE WriteMatcher(_, _)
RECURSIVE WriteDefinition(_, _)
RECURSIVE WritePattern(_, _)
RECURSIVE WritePatterns(_, _, _, _)

WritePatterns(ps, k, sep, w) ==
  IF k > Len(ps) THEN <<>>
  ELSE Gap(w) \o WritePattern(ps[k], w) \o Gap(w)
       \o (IF k < Len(ps) THEN sep ELSE <<>>) \o WritePatterns(ps, k + 1, sep, w)

WriteMatcher(m, w) ==
  CASE m.t = "eq" -> T("=") \o Quoted(m.s[1])
    [] m.t = "re" -> T("/") \o m.s[1] \o T("/") \o m.s[2]
    [] m.t = "sq" -> T("%") \o Gap(w) \o Quoted(m.s[1]) \o Gap(w) \o T(",") \o Gap(w) \o Quoted(m.s[2])
                       \o Gap(w) \o T(",") \o Gap(w) \o Quoted(m.s[3])
    [] m.t = "id" -> m.s[1]
    [] m.t = "sw" -> T("[") \o WritePatterns(m.ch, 1, T("|"), w) \o T("]")
    [] OTHER      -> T("{") \o WritePatterns(m.ch, 1, <<>>, w) \o T("}")

WriteDefinition(d, w) ==
  T(d.oo) \o T("<") \o T(d.io) \o Gap(w) \o WriteMatcher(d.m, w)
    \o (IF d.m.t \in {"id", "re"} /\ d.at # <<>> THEN T(" ") ELSE <<>>) \o Gap(w)
    \o WriteAttributes(d.at, 1, w) \o T(">") \o WriteRepeat(d.rep, w)

WritePattern(p, w) ==
  IF ~p.cap THEN WriteDefinition(p.d, w)
  ELSE T("(") \o Gap(w)
       \o (IF p.nm = <<>> THEN <<>> ELSE T("?") \o Quoted(p.nm[1]) \o Gap(w))
       \o WriteDefinition(p.d, w) \o Gap(w) \o T(")")

RECURSIVE WriteImports(_, _, _)
WriteImports(ids, k, w) ==
  IF k > Len(ids) THEN <<>>
  ELSE Gap(w) \o ids[k][1] \o (IF ids[k][1] = ids[k][2] THEN <<>> ELSE T(" as ") \o ids[k][2])
       \o (IF k < Len(ids) THEN T(",") ELSE <<>>) \o WriteImports(ids, k + 1, w)

WriteStatement(x, w) ==
  CASE x.t = "id"  -> x.n \o Gap(w) \o T("=") \o Gap(w) \o x.r
    [] x.t = "def" -> x.n \o Gap(w) \o T("=") \o Gap(w) \o WriteDefinition(x.d[1], w)
    [] OTHER -> T("import") \o Blank(w) \o T("{") \o WriteImports(x.ids, 1, w) \o Gap(w) \o T("}")
                  \o Blank(w) \o T("from") \o Blank(w) \o Quoted(x.path)

\* A name can not follow a name directly
RECURSIVE WriteStatements(_, _, _)
WriteStatements(st, k, w) ==
  IF k > Len(st) THEN <<>>
  ELSE BigGap(w) \o WriteStatement(st[k], w) \o T(" ") \o BigGap(w) \o WriteStatements(st, k + 1, w)

RECURSIVE WriteBody(_, _, _)
WriteBody(ps, k, w) ==
  IF k > Len(ps) THEN <<>>
  ELSE BigGap(w) \o WritePattern(ps[k], w) \o WriteBody(ps, k + 1, w)

WriteScript(v, w) ==
  BigGap(w)
    \o (IF v.hd THEN HeaderStart \o Blank(w) \o WriteAttributes(v.at, 1, w) \o T("]")
                       \o WriteStatements(v.st, 1, w) \o Gap(w) \o HeaderEnd
        ELSE <<>>)
    \o WriteBody(v.ps, 1, w) \o BigGap(w)
=============================================================================
