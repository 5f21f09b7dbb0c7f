--------------------------------- MODULE Peg --------------------------------
(* What a grammar means, said directly: a parsing expression grammar.  This  *)
(* is for the part of the engine without variables, errors and functions,    *)
(* and independent of how Engine runs; Props!MeaningKept says that both      *)
(* agree (properties C01 to C03, C06 to C10, C17).                           *)
EXTENDS Engine

PegKinds == {"Equals", "Matches", "Sequence", "Null", "Program", "Switch", "Loop", "Optional", "Not",
             "Discard", "Flatten", "Debug"}

IsPeg ==
  /\ \A k \in 1..Len(gr) :
       /\ gr[k].k \in PegKinds
       /\ gr[k].k = "Equals" => gr[k].pat.t = "s"
       /\ gr[k].k = "Sequence" => gr[k].st.t = "s" /\ gr[k].en.t = "s" /\ gr[k].es.t = "s"

\* The grammar of parse k: that of the case, with all of the edits so far
RECURSIVE GrammarAt(_)
GrammarAt(k) == IF k = 0 THEN cas.g ELSE EditAll(GrammarAt(k - 1), cas.runs[k].ops, 1)

\* A match is a tree [n, cs, ce, ms, me, kids]; a result is
\*   no                 no match
\*   skip up to e       text, but no tree
\*   tree / flat        a tree up to e, to be taken as it is / for its children
NoTree == [n |-> "", cs |-> 0, ce |-> 0, ms |-> 0, me |-> 0, kids |-> <<>>]
No == [t |-> "no", e |-> 0, tr |-> NoTree]
Skips(e) == [t |-> "skip", e |-> e, tr |-> NoTree]
Tree1(n, cs, ce, ms, me, kids) ==
  [t |-> "tree", e |-> me, tr |-> [n |-> n, cs |-> cs, ce |-> ce, ms |-> ms, me |-> me, kids |-> kids]]

Matched(x) == x.t \in {"tree", "flat"}

RECURSIVE Meaning(_, _, _, _, _)
RECURSIVE Each(_, _, _, _, _, _, _)
RECURSIVE FirstOf(_, _, _, _, _, _)
RECURSIVE Repeat(_, _, _, _, _, _, _)

\* The children one after the other: [ok, s |-> where they end, xs |-> their results]
Each(g, src, ch, k, s, hi, xs) ==
  IF k > Len(ch) THEN [ok |-> TRUE, s |-> s, xs |-> xs]
  ELSE LET x == Meaning(g, src, ch[k], s, hi)
       IN IF x.t = "no" THEN [ok |-> FALSE, s |-> s, xs |-> xs]
          ELSE Each(g, src, ch, k + 1, x.e, hi, Append(xs, x))

\* Alternatives: the first one that matches some text or tree
FirstOf(g, src, ch, k, s, hi) ==
  IF k > Len(ch) THEN No
  ELSE LET x == Meaning(g, src, ch[k], s, hi)
       IN IF Matched(x) \/ (x.t = "skip" /\ x.e # s) THEN x ELSE FirstOf(g, src, ch, k + 1, s, hi)

\* Iterations, after n of them: [n, s, xs]
Repeat(g, src, nd, n, s, hi, xs) ==
  IF nd.max # -1 /\ n >= nd.max THEN [n |-> n, s |-> s, xs |-> xs]
  ELSE LET x == Each(g, src, nd.ch, 1, s, hi, <<>>)
       IN CASE ~x.ok -> [n |-> n, s |-> x.s, xs |-> xs \o x.xs]
            [] n + 1 >= nd.min /\ x.s = s -> [n |-> n + 1, s |-> x.s, xs |-> xs \o x.xs]
            [] OTHER -> Repeat(g, src, nd, n + 1, x.s, hi, xs \o x.xs)

RECURSIVE Forest(_, _)
Forest(xs, k) ==
  IF k > Len(xs) THEN <<>>
  ELSE (CASE xs[k].t = "tree" -> <<xs[k].tr>> [] xs[k].t = "flat" -> xs[k].tr.kids [] OTHER -> <<>>)
       \o Forest(xs, k + 1)

\* The tree of what was matched in order, from lo to e
Grow(n, lo, e, xs) ==
  LET ms == {k \in 1..Len(xs) : Matched(xs[k])}
      kids == Forest(xs, 1)
  IN IF kids = <<>> THEN No
     ELSE Tree1(n, MinOf({xs[k].tr.cs : k \in ms}), MaxOf({xs[k].tr.ce : k \in ms}), lo, e, kids)

\* The first place at or after p where the end pattern is, not escaped
RECURSIVE Terminator(_, _, _, _, _)
Terminator(src, p, hi, en, es) ==
  CASE p >= hi -> -1
    [] StartsAt(src, p, hi, en) -> p
    [] es # <<>> /\ StartsAt(src, p, hi, es) ->
       LET q == p + Len(es) IN Terminator(src, q + (IF q < Len(src) THEN CharLen(src[q + 1]) ELSE 1), hi, en, es)
    [] OTHER -> Terminator(src, p + CharLen(src[p + 1]), hi, en, es)

Meaning(g, src, id, lo, hi) ==
  LET nd == g[id] IN
  CASE nd.k = "Equals" ->
       IF nd.pat.v # <<>> /\ StartsAt(src, lo, hi, nd.pat.v)
       THEN Tree1(nd.n, lo, lo + Len(nd.pat.v), lo, lo + Len(nd.pat.v), <<>>) ELSE No
    [] nd.k = "Matches" ->
       LET e == RegexMatch(src, lo, hi, nd.alts)
       IN CASE e = -1 -> No [] e = lo -> Skips(lo) [] OTHER -> Tree1(nd.n, lo, e, lo, e, <<>>)
    [] nd.k = "Sequence" ->
       LET from == lo + Len(nd.st.v)
           e == IF StartsAt(src, lo, hi, nd.st.v) THEN Terminator(src, from, hi, nd.en.v, nd.es.v) ELSE -1
       IN IF e = -1 THEN No ELSE Tree1(nd.n, from, e, lo, e + Len(nd.en.v), <<>>)
    [] nd.k = "Null" -> Skips(lo)
    [] nd.k = "Program" ->
       LET x == Each(g, src, nd.ch, 1, lo, hi, <<>>) IN IF x.ok THEN Grow(nd.n, lo, x.s, x.xs) ELSE No
    [] nd.k = "Switch" -> FirstOf(g, src, nd.ch, 1, lo, hi)
    [] nd.k = "Loop" ->
       LET x == Repeat(g, src, nd, 0, lo, hi, <<>>)
       IN CASE x.n < nd.min -> No
            [] nd.max = 0 -> Skips(lo)
            [] OTHER -> Grow(nd.n, lo, x.s, x.xs)
    [] nd.k = "Debug" -> IF nd.ch = <<>> THEN Skips(lo) ELSE Meaning(g, src, nd.ch[1], lo, hi)
    [] nd.k = "Optional" ->
       LET x == Meaning(g, src, nd.ch[1], lo, hi) IN IF x.t = "no" THEN Skips(lo) ELSE x
    [] nd.k = "Not" ->
       LET x == Meaning(g, src, nd.ch[1], lo, hi)
       IN IF x.t = "no" \/ (x.t = "skip" /\ x.e = lo) THEN Skips(lo) ELSE No
    [] nd.k = "Discard" ->
       LET x == Meaning(g, src, nd.ch[1], lo, hi) IN IF x.t = "no" THEN No ELSE Skips(x.e)
    [] nd.k = "Flatten" ->
       LET x == Meaning(g, src, nd.ch[1], lo, hi) IN IF x.t = "tree" THEN [x EXCEPT !.t = "flat"] ELSE x

\* A tree in pre-order
RECURSIVE Listed(_)
RECURSIVE ListedAll(_, _)
Listed(tr) == << <<tr.n, tr.cs, tr.ce, tr.ms, tr.me, Len(tr.kids)>> >> \o ListedAll(tr.kids, 1)
ListedAll(kids, k) == IF k > Len(kids) THEN <<>> ELSE Listed(kids[k]) \o ListedAll(kids, k + 1)

\* What parse k of the case means
MeaningOfRun(k) ==
  LET x == Meaning(GrammarAt(k), cas.runs[k].src, cas.root, cas.runs[k].lo, cas.runs[k].hi)
  IN IF Matched(x) THEN Listed(x.tr) ELSE <<>>

ListedOutcome(o) == [k \in 1..Len(o.tree) |-> <<o.tree[k].n>> \o SubSeq(o.tree[k].r, 1, 5)]
=============================================================================
