------------------------------- MODULE Engine -------------------------------
(* The parsing engine as a stack machine.                                    *)
(*                                                                           *)
(* One step of the machine is one observable event of the implementation:    *)
(*   call   a matcher is entered with a window of the source                 *)
(*   ret    a matcher returns a result to whoever entered it                 *)
(*   hook   a user function (Map, Catch) is called with a result             *)
(* and the state is exactly what later behaviour can depend on: the frames   *)
(* of the running matchers, the tokens made so far, and the scopes.          *)
(*                                                                           *)
(* A case (cas) is a grammar (a table of nodes that refer to each other by   *)
(* number), initial scopes, and a sequence of parses of a source.            *)
EXTENDS Regex, TLC

VARIABLES
  cas,   \* the case
  gr,    \* the grammar: a sequence of nodes (edits between parses change it)
  run,   \* the number of the current parse
  ctl,   \* what happens next
  stk,   \* the frames of the matchers that are running, the innermost last
  heap,  \* all tokens, in order of creation
  scp,   \* the scope contexts: 1 is that of the parse, the others are the case's own
  outs,  \* the outcomes of the parses so far
  hks,   \* the calls of user functions so far
  step   \* the number of steps so far

vars == <<cas, gr, run, ctl, stk, heap, scp, outs, hks, step>>

MaxDepth == 80

-----------------------------------------------------------------------------
(* Results of matchers *)

R(t, i, j, s, m, p) == [t |-> t, i |-> i, j |-> j, s |-> s, m |-> m, p |-> p]
TokR(i)     == R("tok", i, 0, "", <<>>, <<>>)
ProxR(i)    == R("prox", i, 0, "", <<>>, <<>>)
SkipR(n)    == R("skip", n, 0, "", <<>>, <<>>)
BrkR(s, p)  == R("brk", 0, 0, s, <<>>, <<p>>)
ContR(s, p) == R("cont", 0, 0, s, <<>>, <<p>>)
NoneR == R("none", 0, 0, "", <<>>, <<>>)
StopR == R("stop", 0, 0, "", <<>>, <<>>)
FailR == R("fail", 0, 0, "", <<>>, <<>>)
ErrR(lo, hi, m) == R("err", lo, hi, "", m, <<>>)

\* The text of messages the engine makes up itself is not part of the specification
AnyText == <<-1>>
InternalError == ErrR(-1, -1, AnyText)

NoRange(r) == r.i = -1

-----------------------------------------------------------------------------
(* Tokens *)

ERRORFLAG == 2
NoAttributes == [x \in {} |-> <<>>]

SrcOf(k) == cas.runs[k].src
Src == SrcOf(run)

NewTok(n, cs, ce, ms, me) ==
  [n |-> n, cs |-> cs, ce |-> ce, ms |-> ms, me |-> me, val |-> <<>>, at |-> NoAttributes,
   kids |-> <<>>, par |-> 0, fl |-> 0, pin |-> FALSE, run |-> run]

IsErrorTok(t) == t.fl = ERRORFLAG

CapturedText(t) ==
  IF t.pin /\ "__value" \in DOMAIN t.at THEN t.at["__value"] ELSE Slice(SrcOf(t.run), t.cs, t.ce)
MatchedText(t) ==
  IF t.pin /\ "__matched_value" \in DOMAIN t.at THEN t.at["__matched_value"]
  ELSE Slice(SrcOf(t.run), t.ms, t.me)
ValueText(t) ==
  IF "__value" \in DOMAIN t.at THEN t.at["__value"]
  ELSE IF t.val # <<>> THEN t.val
  ELSE CapturedText(t)

\* A message at a range of the source
Located(msg, lo, hi) ==
  IF ~IsWindow(Src, lo, hi) \/ InsideCRLF(Src, lo) \/ InsideCRLF(Src, hi) THEN AnyText
  ELSE LocatedMessage(Src, cas.file, msg, lo, hi)

ErrorTok(msg, lo, hi) ==
  [NewTok("Error", lo, hi, lo, hi) EXCEPT
     !.at = ("__message" :> Located(msg, lo, hi)), !.fl = ERRORFLAG]

RECURSIVE PreOrder(_, _)
RECURSIVE PreOrderAll(_, _, _)
PreOrder(h, t) == <<t>> \o PreOrderAll(h, h[t].kids, 1)
PreOrderAll(h, kids, k) ==
  IF k > Len(kids) THEN <<>> ELSE PreOrder(h, kids[k]) \o PreOrderAll(h, kids, k + 1)

-----------------------------------------------------------------------------
(* Scopes: a scope context is a stack of maps from names to values *)

NoValue   == [t |-> "none", v |-> <<>>, i |-> 0]
StrV(v)   == [t |-> "str", v |-> v, i |-> 0]
TokV(i)   == [t |-> "tok", v |-> <<>>, i |-> i]
MatV(i)   == [t |-> "mat", v |-> <<>>, i |-> i]
EmptyScope == [x \in {} |-> NoValue]

RECURSIVE ScopeFind(_, _, _)
ScopeFind(stack, k, name) ==
  IF k = 0 THEN NoValue
  ELSE IF name \in DOMAIN stack[k] THEN stack[k][name]
  ELSE ScopeFind(stack, k - 1, name)

ScopeGet(s, sc, name) == ScopeFind(s[sc], Len(s[sc]), name)

StackSet(stack, name, v) ==
  LET st == IF stack = <<>> THEN <<EmptyScope>> ELSE stack
  IN [st EXCEPT ![Len(st)] = (name :> v) @@ @]

ScopeSet(s, sc, name, v) == [s EXCEPT ![sc] = StackSet(@, name, v)]
ScopePush(s, sc) == [s EXCEPT ![sc] = Append(@, EmptyScope)]
ScopePop(s, sc) == [s EXCEPT ![sc] = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]

-----------------------------------------------------------------------------
(* Values that matchers fetch: given text, a variable, or a matcher *)

\* Names are text in the source language, but strings here
NameOfText(v) ==
  LET hits == {k \in 1..Len(cas.nt) : cas.nt[k][1] = v}
  IN IF hits = {} THEN "?" ELSE cas.nt[CHOOSE k \in hits : TRUE][2]

FetchedText(v)    == [t |-> "s", v |-> v, i |-> 0]
FetchedMatcher(i) == [t |-> "m", v |-> <<>>, i |-> i]
NotFetchable      == [t |-> "undef", v |-> <<>>, i |-> 0]

Dots == <<46, 46>>

FetchToken(t, sub) ==
  CASE sub = "captured_value" -> FetchedText(ValueText(t))
    [] sub = "matched_value"  -> FetchedText(MatchedText(t))
    [] sub = "start"          -> FetchedText(NumberText(t.ms))
    [] sub = "end"            -> FetchedText(NumberText(t.me))
    [] sub = "captured_start" -> FetchedText(NumberText(t.cs))
    [] sub = "captured_end"   -> FetchedText(NumberText(t.ce))
    [] sub = "range"          -> FetchedText(NumberText(t.ms) \o Dots \o NumberText(t.me))
    [] sub = "captured_range" -> FetchedText(NumberText(t.cs) \o Dots \o NumberText(t.ce))
    [] OTHER                  -> NotFetchable

Fetched(p, s, sc, h) ==
  CASE p.t = "s" -> FetchedText(p.v)
    [] p.t = "m" -> FetchedMatcher(p.v)
    [] OTHER ->
       LET v == ScopeGet(s, sc, p.v) IN
       CASE v.t = "tok" -> FetchToken(h[v.i], p.s)
         [] v.t = "str" -> IF p.s = "" THEN FetchedText(v.v) ELSE NotFetchable
         [] v.t = "mat" -> FetchedMatcher(v.i)
         [] OTHER -> NotFetchable

-----------------------------------------------------------------------------
(* Nodes *)

Kind(id) == gr[id].k

DefaultName(k) ==
  CASE k = "Flatten" -> "Flatten"
    [] k = "ExpandRange" -> "Catch"
    [] k = "Panic" -> "Error"
    [] k \in {"AssertIf", "AssertIfNot", "FatalIf", "FatalIfNot"} -> "Map"
    [] OTHER -> k

NodeName(g, id) == g[id].n

RECURSIVE IsConsuming(_)
IsConsuming(id) ==
  LET k == Kind(id) IN
  CASE k \in {"Null", "Register", "Pin", "Fetch", "StoreS"} -> FALSE
    [] k = "Debug" -> gr[id].ch # <<>> /\ IsConsuming(gr[id].ch[1])
    [] k = "Emit" -> gr[id].cns
    [] OTHER -> TRUE

MapKinds == {"Map", "AssertIf", "AssertIfNot", "FatalIf", "FatalIfNot"}
TransparentNames == {"Not", "Optional", "Discard", "Catch", "SetScope", "Debug", "ExpandRange"} \cup MapKinds

\* Matchers with a name of their own are known by it from the moment they are entered
Before(id, sc) == IF gr[id].cu THEN ScopeSet(scp, sc, gr[id].n, MatV(id)) ELSE scp

-----------------------------------------------------------------------------
(* Control *)

Ctl(k, id, lo, hi, top, sc, r) ==
  [k |-> k, id |-> id, lo |-> lo, hi |-> hi, top |-> top, sc |-> sc, r |-> r]
Call(id, lo, hi, top, sc) == Ctl("call", id, lo, hi, top, sc, NoneR)
Ret(id, r) == Ctl("ret", id, 0, 0, 0, 0, r)
\* a: 0 for a success function, 1 for a failure function
Hook(id, a, r) == Ctl("hook", id, a, 0, 0, 0, r)
\* The case uses the engine in a way that is not specified (the implementation may panic)
Undef == Ctl("undef", 0, 0, 0, 0, 0, NoneR)
Done == Ctl("done", 0, 0, 0, 0, 0, NoneR)
StartRun == Ctl("start", 0, 0, 0, 0, 0, NoneR)

Frame(id, c) ==
  [id |-> id, lo |-> c.lo, hi |-> c.hi, top |-> c.top, sc |-> c.sc,
   j |-> 1, s |-> c.lo, cs |-> MAXPOS, ce |-> 0, ms |-> MAXPOS, me |-> 0,
   kids |-> <<>>, cnt |-> 0, ist |-> c.lo, tok |-> 0]

\* What a step does: the next control state, frames, tokens, scopes
To(c, k, h, s) ==
  /\ ctl' = c
  /\ stk' = k
  /\ heap' = h
  /\ scp' = s
  /\ step' = step + 1
  /\ UNCHANGED <<cas, gr, run, outs, hks>>

Readable(lo, hi) == IsWindow(Src, lo, hi)

\* A leaf returns at once
Leaf(r, h) == To(Ret(ctl.id, r), stk, h, Before(ctl.id, ctl.sc))
LeafUndef == To(Undef, <<>>, heap, scp)

\* A wrapper enters its matcher with the window it got
EnterChild(child, lo, hi, sc, s) ==
  To(Call(child, lo, hi, ctl.top, sc), Append(stk, Frame(ctl.id, ctl)), heap, s)

Entering(k) == ctl.k = "call" /\ Kind(ctl.id) = k /\ Len(stk) < MaxDepth

-----------------------------------------------------------------------------
(* Leaves *)

EnterEquals ==
  /\ Entering("Equals")
  /\ LET nd == gr[ctl.id]
         s1 == Before(ctl.id, ctl.sc)
         p == Fetched(nd.pat, s1, ctl.sc, heap)
     IN CASE p.t = "undef" -> LeafUndef
          [] p.t = "m" -> Leaf(InternalError, heap)
          [] p.v = <<>> -> Leaf(FailR, heap)
          [] ~Readable(ctl.lo, ctl.hi) -> LeafUndef
          [] StartsAt(Src, ctl.lo, ctl.hi, p.v) ->
             LET e == ctl.lo + Len(p.v)
             IN Leaf(TokR(Len(heap) + 1), Append(heap, NewTok(nd.n, ctl.lo, e, ctl.lo, e)))
          [] OTHER -> Leaf(FailR, heap)

EnterMatches ==
  /\ Entering("Matches")
  /\ LET nd == gr[ctl.id] IN
     IF ~Readable(ctl.lo, ctl.hi) THEN LeafUndef
     ELSE LET e == RegexMatch(Src, ctl.lo, ctl.hi, nd.alts)
          IN CASE e = -1 -> Leaf(FailR, heap)
               [] e = ctl.lo -> Leaf(SkipR(0), heap)
               [] OTHER ->
                  Leaf(TokR(Len(heap) + 1), Append(heap, NewTok(nd.n, ctl.lo, e, ctl.lo, e)))

\* From p, after the start: [e |-> the end of the end pattern, or -1; v |-> the text without escapes]
RECURSIVE SequenceScan(_, _, _, _, _, _)
SequenceScan(p, from, hi, en, es, acc) ==
  CASE p >= hi -> [e |-> -1, v |-> <<>>]
    [] StartsAt(Src, p, hi, en) -> [e |-> p + Len(en), v |-> acc \o SubSeq(Src, from + 1, p)]
    [] es # <<>> /\ StartsAt(Src, p, hi, es) ->
       LET q == p + Len(es)
           next == IF q < Len(Src) THEN CharLen(Src[q + 1]) ELSE 1
       IN SequenceScan(q + next, q, hi, en, es, acc \o SubSeq(Src, from + 1, p))
    [] OTHER -> SequenceScan(p + CharLen(Src[p + 1]), from, hi, en, es, acc)

EnterSequence ==
  /\ Entering("Sequence")
  /\ LET nd == gr[ctl.id]
         s1 == Before(ctl.id, ctl.sc)
         a == Fetched(nd.st, s1, ctl.sc, heap)
         b == Fetched(nd.en, s1, ctl.sc, heap)
         c == Fetched(nd.es, s1, ctl.sc, heap)
     IN CASE a.t = "undef" \/ a = FetchedText(<<>>) -> LeafUndef
          [] a.t = "m" -> Leaf(InternalError, heap)
          [] b.t = "undef" \/ b = FetchedText(<<>>) -> LeafUndef
          [] b.t = "m" -> Leaf(InternalError, heap)
          [] c.t = "undef" -> LeafUndef
          [] c.t = "m" -> Leaf(InternalError, heap)
          [] ~Readable(ctl.lo, ctl.hi) -> LeafUndef
          [] ~StartsAt(Src, ctl.lo, ctl.hi, a.v) -> Leaf(FailR, heap)
          [] OTHER ->
             LET from == ctl.lo + Len(a.v)
                 x == SequenceScan(from, from, ctl.hi, b.v, c.v, <<>>)
             IN IF x.e = -1 THEN Leaf(FailR, heap)
                ELSE Leaf(TokR(Len(heap) + 1),
                          Append(heap, [NewTok(nd.n, from, x.e - Len(b.v), ctl.lo, x.e)
                                          EXCEPT !.at = ("__value" :> x.v)]))

\* Match nothing, successfully
EnterNull == (Entering("Null") \/ Entering("Fetch")) /\ Leaf(SkipR(0), heap)

RECURSIVE RegisterAll(_, _, _, _)
RegisterAll(s, sc, ids, k) ==
  IF k > Len(ids) THEN s
  ELSE RegisterAll(ScopeSet(s, sc, gr[ids[k]].n, MatV(ids[k])), sc, ids, k + 1)

EnterRegister ==
  /\ Entering("Register")
  /\ To(Ret(ctl.id, SkipR(0)), stk, heap, RegisterAll(scp, ctl.sc, gr[ctl.id].ch, 1))

EnterStoreText ==
  /\ Entering("StoreS")
  /\ To(Ret(ctl.id, SkipR(0)), stk, heap, ScopeSet(scp, ctl.sc, gr[ctl.id].n, StrV(gr[ctl.id].v)))

EnterBreak == Entering("Break") /\ Leaf(BrkR(gr[ctl.id].ln, NoneR), heap)

\* A fatal error, from where the innermost running program began to here
EnterPanic ==
  /\ Entering("Panic")
  /\ LET from == IF ctl.top = 0 THEN ctl.lo ELSE heap[ctl.top].ms
     IN Leaf(ErrR(from, ctl.lo, Located(gr[ctl.id].msg, from, ctl.lo)), heap)

EnterError ==
  /\ Entering("Error")
  /\ Leaf(TokR(Len(heap) + 1), Append(heap, ErrorTok(gr[ctl.id].msg, ctl.lo, ctl.lo)))

\* A matcher of the user's, with a given result; it fails when there is no text for it
EmitPayload(p, h) ==
  CASE p.t = "tok" ->
       [r |-> TokR(Len(h) + 1), h |-> Append(h, NewTok(p.s, ctl.lo, ctl.lo + p.n, ctl.lo, ctl.lo + p.n))]
    [] p.t = "prox" ->
       [r |-> ProxR(Len(h) + 2),
        h |-> h \o << [NewTok(p.s, ctl.lo, ctl.lo + p.n, ctl.lo, ctl.lo + p.n) EXCEPT !.par = Len(h) + 2],
                      [NewTok("Emitted", ctl.lo, ctl.lo + p.n, ctl.lo, ctl.lo + p.n)
                         EXCEPT !.kids = <<Len(h) + 1>>] >>]
    [] p.t = "skip" -> [r |-> SkipR(p.n), h |-> h]
    [] p.t = "stop" -> [r |-> StopR, h |-> h]
    [] OTHER -> [r |-> NoneR, h |-> h]

EnterEmit ==
  /\ Entering("Emit")
  /\ LET res == gr[ctl.id].res
         n == IF res.t \in {"brk", "cont"} THEN res.p.n ELSE res.n
     IN
     CASE ~(ctl.lo + n <= ctl.hi /\ IsBoundary(Src, ctl.lo + n)) -> Leaf(FailR, heap)
       [] res.t = "brk" ->
          LET x == EmitPayload(res.p, heap) IN Leaf(BrkR(res.s, x.r), x.h)
       [] res.t = "cont" ->
          LET x == EmitPayload(res.p, heap) IN Leaf(ContR(res.s, x.r), x.h)
       [] res.t = "fail" -> Leaf(FailR, heap)
       [] OTHER -> LET x == EmitPayload(res, heap) IN Leaf(x.r, x.h)

-----------------------------------------------------------------------------
(* Pin: match at another place, without consuming *)

EmptyOffset(t) == t \in {<<>>, <<43>>, <<45>>, <<43, 48>>, <<45, 48>>}

\* [t |-> "ok", n |-> offset], or "fail" (outside of what can be said), or "undef" (malformed)
OffsetOf(base, dflt, t) ==
  LET signed == t # <<>> /\ t[1] \in {43, 45}
      digits == IF signed THEN SubSeq(t, 2, Len(t)) ELSE t
  IN CASE EmptyOffset(t) -> [t |-> "ok", n |-> dflt]
       [] IsHuge(digits) -> [t |-> "fail", n |-> 0]
       [] ~IsNumber(digits) -> [t |-> "undef", n |-> 0]
       [] signed /\ t[1] = 45 ->
          IF NumberValue(digits) > base THEN [t |-> "fail", n |-> 0]
          ELSE [t |-> "ok", n |-> base - NumberValue(digits)]
       [] signed -> [t |-> "ok", n |-> base + NumberValue(digits)]
       [] OTHER -> [t |-> "ok", n |-> NumberValue(digits)]

\* The positions where ".." splits the text
SplitAt(t) == {k \in 1..(Len(t) - 1) : t[k] = 46 /\ t[k + 1] = 46}

PinWindow(t, lo, hi) ==
  LET cut == SplitAt(t)
      k == IF cut = {} THEN Len(t) + 1 ELSE CHOOSE k \in cut : \A m \in cut : k <= m
      a == OffsetOf(lo, lo, SubSeq(t, 1, k - 1))
      b == IF cut = {} THEN [t |-> "ok", n |-> hi]
           ELSE OffsetOf(a.n, hi, SubSeq(t, k + 2, Len(t)))
  IN CASE Cardinality(cut) > 1 -> [t |-> "undef", lo |-> 0, hi |-> 0]
       [] b.t = "undef" -> [t |-> "undef", lo |-> 0, hi |-> 0]
       [] a.t # "ok" -> [t |-> a.t, lo |-> 0, hi |-> 0]
       [] b.t # "ok" -> [t |-> b.t, lo |-> 0, hi |-> 0]
       [] ~IsWindow(Src, a.n, b.n) -> [t |-> "fail", lo |-> 0, hi |-> 0]
       [] OTHER -> [t |-> "ok", lo |-> a.n, hi |-> b.n]

EnterPin ==
  /\ Entering("Pin")
  /\ LET nd == gr[ctl.id]
         s1 == Before(ctl.id, ctl.sc)
         p == Fetched(nd.off, s1, ctl.sc, heap)
         w == PinWindow(p.v, ctl.lo, ctl.hi)
     IN CASE p.t = "undef" -> LeafUndef
          [] p.t = "m" -> Leaf(InternalError, heap)
          [] w.t = "undef" -> LeafUndef
          [] w.t = "fail" -> Leaf(FailR, heap)
          [] nd.ch = <<>> ->
             Leaf(TokR(Len(heap) + 1),
                  Append(heap, [NewTok(nd.n, w.lo, w.hi, w.lo, w.hi) EXCEPT !.pin = TRUE]))
          [] OTHER -> EnterChild(nd.ch[1], w.lo, w.hi, ctl.sc, s1)

-----------------------------------------------------------------------------
(* Wrappers *)

PlainWrappers == {"Not", "Optional", "Discard", "Flatten", "ExpandRange", "Store", "Catch"} \cup MapKinds

EnterWrapper ==
  /\ ctl.k = "call" /\ Kind(ctl.id) \in PlainWrappers /\ Len(stk) < MaxDepth
  /\ EnterChild(gr[ctl.id].ch[1], ctl.lo, ctl.hi, ctl.sc, Before(ctl.id, ctl.sc))

EnterDebug ==
  /\ Entering("Debug")
  /\ IF ~Readable(ctl.lo, ctl.hi) THEN LeafUndef
     ELSE IF gr[ctl.id].ch = <<>> THEN Leaf(SkipR(0), heap)
     ELSE EnterChild(gr[ctl.id].ch[1], ctl.lo, ctl.hi, ctl.sc, scp)

\* A new scope of the parse, or a scope of the case's own
EnterSetScope ==
  /\ Entering("SetScope")
  /\ LET nd == gr[ctl.id] IN
     IF nd.sx = 0 THEN EnterChild(nd.ch[1], ctl.lo, ctl.hi, 1, ScopePush(scp, 1))
     ELSE EnterChild(nd.ch[1], ctl.lo, ctl.hi, nd.sx + 1, scp)

EnterRef ==
  /\ Entering("Ref")
  /\ LET nd == gr[ctl.id]
         s1 == Before(ctl.id, ctl.sc)
         \* A target that is given by name is looked up
         byName == nd.tgt.t = "n"
         p == IF byName THEN FetchedText(<<>>) ELSE Fetched(nd.tgt, s1, ctl.sc, heap)
         v == IF p.t # "s" THEN NoValue
              ELSE ScopeGet(s1, ctl.sc, IF byName THEN nd.tgt.v ELSE NameOfText(p.v))
     IN CASE p.t = "undef" -> LeafUndef
          [] p.t = "m" -> EnterChild(p.i, ctl.lo, ctl.hi, ctl.sc, s1)
          [] v.t = "mat" -> EnterChild(v.i, ctl.lo, ctl.hi, ctl.sc, s1)
          [] OTHER -> Leaf(InternalError, heap)

-----------------------------------------------------------------------------
(* Program, Switch and Loop *)

\* [t |-> "call"] the next child, or [t |-> "end"] all iterations are complete
RECURSIVE Advance(_)
RECURSIVE EndIteration(_)

Advance(f) ==
  IF f.j <= Len(gr[f.id].ch) THEN [t |-> "call", f |-> f] ELSE EndIteration(f)

EndIteration(f) ==
  LET nd == gr[f.id]
      g == [f EXCEPT !.cnt = @ + 1]
  IN CASE nd.k # "Loop" -> [t |-> "end", f |-> g]
       \* an iteration without progress would repeat forever
       [] g.cnt >= nd.min /\ g.s <= g.ist -> [t |-> "end", f |-> g]
       [] nd.max # -1 /\ g.cnt >= nd.max -> [t |-> "end", f |-> g]
       [] OTHER -> Advance([g EXCEPT !.j = 1, !.ist = g.s])

\* [r |-> result, h |-> tokens].  complete: the loop was neither left by Break nor by a failure
Finish(f, h, complete) ==
  LET nd == gr[f.id] IN
  CASE complete /\ nd.k = "Loop" /\ nd.min = 0 /\ f.cnt = 0 /\ f.kids = <<>> -> [r |-> SkipR(0), h |-> h]
    [] complete /\ nd.k = "Loop" /\ f.cnt < nd.min -> [r |-> FailR, h |-> h]
    [] f.cs = MAXPOS \/ f.ms = MAXPOS \/ f.kids = <<>> -> [r |-> FailR, h |-> h]
    [] OTHER ->
       [r |-> TokR(f.tok),
        h |-> [h EXCEPT ![f.tok] = [@ EXCEPT !.kids = f.kids, !.cs = f.cs, !.ce = f.ce,
                                              !.ms = f.ms, !.me = f.me]]]

\* Go on with frame f (below it are the frames `below`)
Proceed(f, below, h, s) ==
  LET a == Advance(f) IN
  IF a.t = "call"
  THEN To(Call(gr[f.id].ch[a.f.j], a.f.s, a.f.hi, a.f.tok, a.f.sc), Append(below, a.f), h, s)
  ELSE LET x == Finish(a.f, h, TRUE) IN To(Ret(f.id, x.r), below, x.h, s)

EnterProgram ==
  /\ ctl.k = "call" /\ Kind(ctl.id) \in {"Program", "Switch", "Loop"} /\ Len(stk) < MaxDepth
  /\ LET nd == gr[ctl.id]
         h == Append(heap, NewTok(nd.n, ctl.lo, ctl.lo, ctl.lo, ctl.lo))
         f == [Frame(ctl.id, ctl) EXCEPT !.tok = Len(h)]
         s1 == Before(ctl.id, ctl.sc)
     IN IF nd.k = "Loop" /\ nd.max = 0
        THEN LET x == Finish(f, h, TRUE) IN To(Ret(ctl.id, x.r), stk, x.h, s1)
        ELSE Proceed(f, stk, h, s1)

Contain(f, cs, ce, ms, me) ==
  [f EXCEPT !.cs = Min2(@, cs), !.ce = Max2(@, ce), !.ms = Min2(@, ms), !.me = Max2(@, me)]

\* Token t becomes a child.  [f, h, ok]; ok is FALSE when a childless token makes no progress
\* (which the engine treats as a bug in the grammar).
AddToken(f, h, t, mustMove, move) ==
  LET tk == h[t]
      widen == IsErrorTok(tk) /\ tk.ms = tk.me /\ f.ms < tk.ms
      tk2 == IF widen THEN [tk EXCEPT !.cs = f.ms, !.ce = tk.me, !.ms = f.ms] ELSE tk
      f2 == IF move THEN [Contain(f, tk2.cs, tk2.ce, tk2.ms, tk2.me) EXCEPT !.s = tk2.me] ELSE f
  IN [f |-> [f2 EXCEPT !.kids = Append(@, t)],
      h |-> [h EXCEPT ![t] = [tk2 EXCEPT !.par = f.tok]],
      ok |-> ~(~IsErrorTok(tk) /\ mustMove /\ move /\ tk.me = f.s /\ tk.kids = <<>>)]

RECURSIVE AddChildren(_, _, _, _, _)
AddChildren(f, h, kids, k, move) ==
  IF k > Len(kids) THEN [f |-> f, h |-> h, ok |-> TRUE]
  ELSE IF h[kids[k]].pin THEN AddChildren(f, h, kids, k + 1, move)
  ELSE LET x == AddToken(f, h, kids[k], FALSE, move)
       IN AddChildren(x.f, x.h, kids, k + 1, move)

\* The children of token t become children, and everything t matched is consumed
AddFlat(f, h, t, move0) ==
  LET tk == h[t]
      move == move0 /\ ~tk.pin
      f1 == IF move THEN [Contain(f, tk.cs, tk.ce, tk.ms, tk.me) EXCEPT !.s = tk.me] ELSE f
      x == AddChildren(f1, h, tk.kids, 1, move)
  IN IF move THEN [x EXCEPT !.f.s = tk.me] ELSE x

AddSkip(f, h, n) ==
  LET e == f.s + n
  IN [f |-> [f EXCEPT !.s = e, !.ms = Min2(@, f.lo), !.me = Max2(@, e)], h |-> h,
      ok |-> e >= 0 /\ e <= Len(Src)]

\* What comes along with a Break or Continue is always consumed
AddPayload(f, h, p) ==
  CASE p.t = "tok" -> AddToken(f, h, p.i, FALSE, ~h[p.i].pin)
    [] p.t = "prox" -> AddFlat(f, h, p.i, TRUE)
    [] p.t = "skip" -> AddSkip(f, h, p.i)
    [] OTHER -> [f |-> f, h |-> h, ok |-> TRUE]

\* The frame that gets the result of ctl
Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
Resuming(kinds) == ctl.k = "ret" /\ stk # <<>> /\ Kind(Top.id) \in kinds
Programs == {"Program", "Switch", "Loop"}
Returns(r) == To(Ret(Top.id, r), Below, heap, scp)
NextChild(f) == [f EXCEPT !.j = @ + 1]

ProgramToken ==
  /\ Resuming(Programs) /\ ctl.r.t \in {"tok", "prox"}
  /\ LET f == Top
         t == ctl.r.i
         c == IsConsuming(ctl.id)
     IN CASE heap[t].pin -> Proceed(NextChild(f), Below, heap, scp)
          [] Kind(f.id) = "Switch" -> Returns(ctl.r)
          [] OTHER ->
             LET x == IF ctl.r.t = "tok" THEN AddToken(f, heap, t, c, c) ELSE AddFlat(f, heap, t, c)
             IN IF x.ok THEN Proceed(NextChild(x.f), Below, x.h, scp) ELSE LeafUndef

ProgramSkip ==
  /\ Resuming(Programs) /\ ctl.r.t = "skip"
  /\ IF ctl.r.i # 0 /\ Kind(Top.id) = "Switch" THEN Returns(ctl.r)
     ELSE IF IsConsuming(ctl.id)
     THEN LET x == AddSkip(Top, heap, ctl.r.i)
          IN IF x.ok THEN Proceed(NextChild(x.f), Below, heap, scp) ELSE LeafUndef
     ELSE Proceed(NextChild(Top), Below, heap, scp)

\* A failure: the next alternative, the end of the loop, or the end of the program
ProgramFail ==
  /\ Resuming(Programs) /\ ctl.r.t = "fail"
  /\ LET f == Top
         nd == gr[f.id]
     IN CASE nd.k = "Switch" -> Proceed(NextChild(f), Below, heap, scp)
          [] nd.k = "Loop" /\ f.cnt >= nd.min ->
             LET x == Finish(f, heap, FALSE) IN To(Ret(f.id, x.r), Below, x.h, scp)
          [] OTHER -> Returns(FailR)

\* An error ends everything
ProgramError == Resuming(Programs) /\ ctl.r.t = "err" /\ Returns(ctl.r)

IsTheLoop(id, name) == Kind(id) = "Loop" /\ (name = gr[id].n \/ name = "")

ProgramBreak ==
  /\ Resuming(Programs) /\ ctl.r.t = "brk"
  /\ IF Kind(Top.id) = "Switch" THEN Returns(ctl.r)
     ELSE LET x == AddPayload(Top, heap, ctl.r.p[1])
              y == Finish(x.f, x.h, FALSE)
              r == IF IsTheLoop(Top.id, ctl.r.s) \/ y.r.t = "fail" THEN y.r ELSE BrkR(ctl.r.s, y.r)
          IN IF x.ok THEN To(Ret(Top.id, r), Below, y.h, scp) ELSE LeafUndef

ProgramContinue ==
  /\ Resuming(Programs) /\ ctl.r.t = "cont"
  /\ IF Kind(Top.id) = "Switch" THEN Returns(ctl.r)
     ELSE LET x == AddPayload(Top, heap, ctl.r.p[1])
              y == Finish(x.f, x.h, FALSE)
              r == IF y.r.t = "fail" THEN y.r ELSE ContR(ctl.r.s, y.r)
          IN CASE ~x.ok -> LeafUndef
               [] IsTheLoop(Top.id, ctl.r.s) ->
                  LET a == EndIteration(x.f) IN
                  IF a.t = "end"
                  THEN LET z == Finish(a.f, x.h, TRUE) IN To(Ret(Top.id, z.r), Below, z.h, scp)
                  ELSE Proceed(a.f, Below, x.h, scp)
               [] OTHER -> To(Ret(Top.id, r), Below, y.h, scp)

ProgramStop ==
  /\ Resuming(Programs) /\ ctl.r.t = "stop"
  /\ LET x == Finish(Top, heap, TRUE) IN To(Ret(Top.id, x.r), Below, x.h, scp)

ProgramNone == Resuming(Programs) /\ ctl.r.t = "none" /\ LeafUndef

-----------------------------------------------------------------------------
(* Results of wrapped matchers *)

ResumeNot ==
  /\ Resuming({"Not"})
  /\ CASE ctl.r.t \in {"tok", "prox"} -> Returns(FailR)
       [] ctl.r.t = "skip" -> Returns(IF ctl.r.i = 0 THEN ctl.r ELSE FailR)
       [] ctl.r.t = "fail" -> Returns(SkipR(0))
       [] OTHER -> Returns(ctl.r)

ResumeOptional ==
  /\ Resuming({"Optional"})
  /\ Returns(IF ctl.r.t = "fail" THEN SkipR(0) ELSE ctl.r)

ResumePlain == Resuming({"Pin", "Ref", "Debug"}) /\ Returns(ctl.r)

ResumeSetScope ==
  /\ Resuming({"SetScope"})
  /\ To(Ret(Top.id, ctl.r), Below, heap, IF gr[Top.id].sx = 0 THEN ScopePop(scp, 1) ELSE scp)

ResumeStore ==
  /\ Resuming({"Store"})
  /\ To(Ret(Top.id, ctl.r), Below, heap,
        IF ctl.r.t = "tok" THEN ScopeSet(scp, Top.sc, gr[Top.id].n, TokV(ctl.r.i)) ELSE scp)

\* Only the errors of a token are left, in an unflagged token of their own
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Discarded(h, lo, t) ==
  LET pre == PreOrder(h, t)
      errs == SelectSeq(pre, LAMBDA k : IsErrorTok(h[k]))
      es == {errs[k] : k \in 1..Len(errs)}
      e == h[t].me
      w == Len(h) + 1
      wrap == [NewTok("Error", lo, e, MinOf({lo} \cup {h[k].ms : k \in es}),
                      MaxOf({e} \cup {h[k].me : k \in es})) EXCEPT !.kids = errs]
  IN IF errs = <<>> THEN [r |-> SkipR(e - lo), h |-> h]
     ELSE [r |-> TokR(w),
           h |-> Append([k \in 1..Len(h) |-> IF k \in es THEN [h[k] EXCEPT !.par = w] ELSE h[k]], wrap)]

ResumeDiscard ==
  /\ Resuming({"Discard"})
  /\ LET lo == Top.lo
         r == ctl.r
         p == r.p[1]
     IN CASE r.t \in {"tok", "prox"} ->
             LET x == Discarded(heap, lo, r.i) IN To(Ret(Top.id, x.r), Below, x.h, scp)
          [] r.t \in {"brk", "cont"} /\ p.t \in {"tok", "prox"} ->
             LET x == Discarded(heap, lo, p.i)
             IN To(Ret(Top.id, [r EXCEPT !.p = <<x.r>>]), Below, x.h, scp)
          [] r.t \in {"brk", "cont"} /\ p.t \in {"brk", "cont"} -> LeafUndef
          [] OTHER -> Returns(r)

ResumeFlatten ==
  /\ Resuming({"Flatten"})
  /\ CASE ctl.r.t = "tok" -> Returns(ProxR(ctl.r.i))
       [] ctl.r.t \in {"brk", "cont"} /\ ctl.r.p[1].t = "tok" ->
          Returns([ctl.r EXCEPT !.p = <<ProxR(ctl.r.p[1].i)>>])
       [] OTHER -> Returns(ctl.r)

ResumeExpandRange ==
  /\ Resuming({"ExpandRange"})
  /\ LET r == ctl.r
         tk == heap[r.i]
         w == Len(heap) + 1
     IN CASE r.t = "tok" ->
             To(Ret(Top.id, ProxR(w)), Below,
                Append([heap EXCEPT ![r.i].par = w],
                       [NewTok("ExpandRange", tk.ms, tk.me, tk.ms, tk.me) EXCEPT !.kids = <<r.i>>]), scp)
          [] r.t = "prox" ->
             To(Ret(Top.id, r), Below, [heap EXCEPT ![r.i].cs = tk.ms, ![r.i].ce = tk.me], scp)
          [] OTHER -> Returns(r)

\* Assertions: a match (or a failure) becomes an error, the opposite is nothing
ResumeAssert ==
  /\ Resuming({"AssertIf", "AssertIfNot", "FatalIf", "FatalIfNot"})
  /\ LET f == Top
         nd == gr[f.id]
         r == ctl.r
         tk == heap[r.i]
         ok == r.t \in {"tok", "prox"}
         token(lo, hi) == To(Ret(f.id, TokR(Len(heap) + 1)), Below, Append(heap, ErrorTok(nd.msg, lo, hi)), scp)
         fatal(lo, hi) == Returns(ErrR(lo, hi, Located(nd.msg, lo, hi)))
     IN CASE ok /\ nd.k = "AssertIf" -> token(tk.ms, tk.me)
          [] ok /\ nd.k = "FatalIf" -> fatal(tk.ms, tk.me)
          [] ok -> Returns(SkipR(0))
          [] r.t = "fail" /\ nd.k = "AssertIfNot" -> token(f.lo, f.lo)
          [] r.t = "fail" /\ nd.k = "FatalIfNot" -> fatal(f.lo, f.hi)
          [] r.t = "fail" -> Returns(SkipR(0))
          [] OTHER -> Returns(r)

\* User functions: the frame stays until the function returns
CallHook(a, r) ==
  To(Hook(Top.id, a, r), stk, heap, scp)

ResumeMap ==
  /\ Resuming({"Map"})
  /\ CASE ctl.r.t \in {"tok", "prox"} -> CallHook(0, TokR(ctl.r.i))
       [] ctl.r.t \in {"fail", "err"} /\ gr[Top.id].ff # "none" -> CallHook(1, ctl.r)
       [] OTHER -> Returns(ctl.r)

ResumeCatch ==
  /\ Resuming({"Catch"})
  /\ IF ctl.r.t \in {"fail", "err"} THEN CallHook(1, ctl.r) ELSE Returns(ctl.r)

\* What the user functions of the cases do.  [r, h]
\* What they see of a variable
Seen(v, h) ==
  CASE v.t = "tok" -> ValueText(h[v.i])
    [] v.t = "str" -> v.v
    [] v.t = "mat" -> <<109>>
    [] OTHER -> <<45>>

SuccessFunction(nd, lo, i, h, s, sc) ==
  CASE nd.sf = "tok"   -> [r |-> TokR(i), h |-> h]
    [] nd.sf = "prox"  -> [r |-> ProxR(i), h |-> h]
    [] nd.sf = "skip"  -> [r |-> SkipR(h[i].me - lo), h |-> h]
    [] nd.sf = "skip0" -> [r |-> SkipR(0), h |-> h]
    [] nd.sf = "name"  -> [r |-> TokR(i), h |-> [h EXCEPT ![i].n = nd.ss]]
    [] nd.sf = "attr"  -> [r |-> TokR(i), h |-> [h EXCEPT ![i].at = (nd.ss :> nd.sv) @@ @]]
    [] nd.sf = "val"   -> [r |-> TokR(i), h |-> [h EXCEPT ![i].val = nd.sv]]
    \* the attributes of a pattern in a script: those that the token does not have yet
    [] nd.sf = "attrs" -> [r |-> TokR(i), h |-> [h EXCEPT ![i].at = @ @@ nd.ats]]
    \* variables: one is set to the token, one becomes the value of the token
    [] nd.sf = "put"   -> [r |-> TokR(i), h |-> h]
    [] nd.sf = "see"   -> [r |-> TokR(i), h |-> [h EXCEPT ![i].val = Seen(ScopeGet(s, sc, nd.ss), h)]]
    [] nd.sf = "brk"   -> [r |-> BrkR(nd.ss, TokR(i)), h |-> h]
    [] nd.sf = "cont"  -> [r |-> ContR(nd.ss, TokR(i)), h |-> h]
    [] nd.sf = "fail"  -> [r |-> FailR, h |-> h]
    \* an error about what was matched; a token of its own in the place of the token
    [] nd.sf = "warn"  -> [r |-> TokR(Len(h) + 1), h |-> Append(h, ErrorTok(nd.sv, h[i].ms, h[i].me))]
    [] nd.sf = "own"   -> [r |-> TokR(Len(h) + 1), h |-> Append(h, NewTok(nd.ss, h[i].cs, h[i].ce, h[i].cs, h[i].ce))]
    [] OTHER           -> [r |-> ErrR(-1, -1, nd.sv), h |-> h]

FailureFunction(nd, lo, hi, r, h) ==
  CASE nd.ff \in {"pass", "note"} -> [r |-> r, h |-> h]
    [] nd.ff = "skip0"  -> [r |-> SkipR(0), h |-> h]
    [] nd.ff = "fail"   -> [r |-> FailR, h |-> h]
    [] nd.ff = "err"    -> [r |-> ErrR(-1, -1, nd.fm), h |-> h]
    [] nd.ff = "errtok" -> [r |-> TokR(Len(h) + 1), h |-> Append(h, ErrorTok(nd.fm, lo, lo))]
    [] nd.ff = "errat"  -> [r |-> TokR(Len(h) + 1), h |-> Append(h, ErrorTok(nd.fm, lo, hi))]
    [] OTHER            -> [r |-> IF r.t = "fail" THEN SkipR(0) ELSE r, h |-> h]

-----------------------------------------------------------------------------
(* What can be seen of a result *)

RECURSIVE Summary(_, _)
Summary(r, h) ==
  LET e(n, s, m, p) == [t |-> r.t, n |-> n, s |-> s, m |-> m, p |-> p] IN
  CASE r.t \in {"tok", "prox"} ->
       LET t == h[r.i] IN e(<<t.cs, t.ce, t.ms, t.me, Len(t.kids)>>, t.n, ValueText(t), <<>>)
    [] r.t = "skip" -> e(<<r.i>>, "", <<>>, <<>>)
    [] r.t \in {"brk", "cont"} -> e(<<>>, r.s, <<>>, <<Summary(r.p[1], h)>>)
    [] r.t = "err" -> e(<<r.i, r.j>>, "", r.m, <<>>)
    [] OTHER -> e(<<>>, "", <<>>, <<>>)

NoSummary == [t |-> "", n |-> <<>>, s |-> "", m |-> <<>>, p |-> <<>>]

\* The event of the step that ctl is about to make
Event ==
  CASE ctl.k = "call" -> [e |-> "in", i |-> ctl.id, a |-> ctl.lo, b |-> ctl.hi, r |-> NoSummary]
    [] ctl.k = "ret" -> [e |-> "out", i |-> ctl.id, a |-> 0, b |-> 0, r |-> Summary(ctl.r, heap)]
    [] ctl.k = "hook" -> [e |-> "hook", i |-> ctl.id, a |-> ctl.lo, b |-> Top.lo * 10000 + Top.hi, r |-> Summary(ctl.r, heap)]
    [] OTHER -> [e |-> ctl.k, i |-> 0, a |-> 0, b |-> 0, r |-> NoSummary]

CallFunction ==
  /\ ctl.k = "hook"
  /\ LET nd == gr[ctl.id]
         x == IF ctl.lo = 0 THEN SuccessFunction(nd, Top.lo, ctl.r.i, heap, scp, Top.sc)
              ELSE FailureFunction(nd, Top.lo, Top.hi, ctl.r, heap)
     IN /\ ctl' = Ret(ctl.id, x.r)
        /\ stk' = Below
        /\ heap' = x.h
        /\ hks' = Append(hks, Event)
        /\ step' = step + 1
        /\ scp' = CASE ctl.lo = 0 /\ nd.k = "Map" /\ nd.sf = "put" -> ScopeSet(scp, Top.sc, nd.ss, TokV(ctl.r.i))
                    [] ctl.lo = 1 /\ nd.k = "Map" /\ nd.ff = "note" -> ScopeSet(scp, Top.sc, nd.ss, StrV(nd.fm))
                    [] OTHER -> scp
        /\ UNCHANGED <<cas, gr, run, outs>>

-----------------------------------------------------------------------------
(* The end of a parse: errors move to the root, in pre-order of their parents, children first *)

RECURSIVE Collect(_, _, _)
RECURSIVE CollectAll(_, _, _, _)
Collect(h, root, t) ==
  LET h1 == CollectAll(h, root, h[t].kids, 1)
      errs == SelectSeq(h1[t].kids, LAMBDA k : IsErrorTok(h1[k]))
      rest == SelectSeq(h1[t].kids, LAMBDA k : ~IsErrorTok(h1[k]))
      es == {errs[k] : k \in 1..Len(errs)}
  IN IF t = root \/ errs = <<>> THEN h1
     ELSE [k \in 1..Len(h1) |->
            CASE k = t -> [h1[k] EXCEPT !.kids = rest]
              [] k = root -> [h1[k] EXCEPT !.kids = @ \o errs]
              [] k \in es -> [h1[k] EXCEPT !.par = root]
              [] OTHER -> h1[k]]
CollectAll(h, root, kids, k) ==
  IF k > Len(kids) THEN h ELSE CollectAll(Collect(h, root, kids[k]), root, kids, k + 1)

IndexIn(s, x) ==
  LET hits == {k \in 1..Len(s) : s[k] = x}
  IN IF hits = {} THEN -1 ELSE CHOOSE k \in hits : TRUE

Tree(h, root) ==
  LET pre == PreOrder(h, root) IN
  [k \in 1..Len(pre) |->
    LET t == h[pre[k]] IN
    [n |-> t.n,
     r |-> <<t.cs, t.ce, t.ms, t.me, Len(t.kids),
             IF t.par = 0 THEN 0 ELSE IndexIn(pre, t.par), t.fl>>,
     v |-> ValueText(t), c |-> CapturedText(t), m |-> MatchedText(t),
     a |-> {<<n, t.at[n]>> : n \in DOMAIN t.at}]]

VariableSummary(v, h) ==
  LET e(n, s, m) == [t |-> v.t, n |-> n, s |-> s, m |-> m, p |-> <<>>] IN
  CASE v.t = "tok" -> [Summary(TokR(v.i), h) EXCEPT !.t = "tok"]
    [] v.t = "str" -> e(<<>>, "", v.v)
    [] v.t = "mat" -> e(<<v.i>>, "", <<>>)
    [] OTHER -> e(<<>>, "", <<>>)

\* The token of a parse, or 0
RootOf(r) ==
  CASE r.t \in {"tok", "prox"} -> r.i
    [] r.t \in {"brk", "cont"} /\ r.p[1].t = "tok" -> r.p[1].i
    [] OTHER -> 0

Outcome(r, h) ==
  LET root == RootOf(r)
      o(t, n, m, tree) ==
        [t |-> t, n |-> n, m |-> m, tree |-> tree,
         vars |-> [k \in 1..Len(cas.watch) |-> VariableSummary(ScopeGet(scp, 1, cas.watch[k]), h)]]
  IN CASE root # 0 -> o("ok", <<>>, <<>>, Tree(h, root))
       [] r.t = "err" -> o("err", <<r.i, r.j>>, r.m, <<>>)
       [] OTHER -> o("fail", <<>>, <<>>, <<>>)

FinishRun ==
  /\ ctl.k = "ret" /\ stk = <<>>
  /\ LET root == RootOf(ctl.r)
         h == IF root = 0 THEN heap ELSE Collect(heap, root, root)
     IN /\ heap' = h
        /\ outs' = Append(outs, Outcome(ctl.r, h))
  /\ ctl' = IF run < Len(cas.runs) THEN StartRun ELSE Done
  /\ step' = step + 1
  /\ UNCHANGED <<cas, gr, run, stk, scp, hks>>

TooDeep == ctl.k = "call" /\ Len(stk) >= MaxDepth /\ LeafUndef

-----------------------------------------------------------------------------
(* The start of a parse: edits of the grammar, then initial scopes *)

RECURSIVE SetName(_, _, _)
SetName(g, id, name) ==
  LET k == g[id].k IN
  CASE k \in {"Program", "Switch", "Loop", "Flatten", "Ref", "Store", "StoreS"} ->
       [g EXCEPT ![id].n = name, ![id].cu = TRUE]
    [] k \in {"Equals", "Matches", "Sequence", "Pin"} ->
       [g EXCEPT ![id].n = name, ![id].cu = name # k]
    [] k = "Fetch" -> [g EXCEPT ![id].n = name]
    [] k \in TransparentNames /\ g[id].ch # <<>> -> SetName(g, g[id].ch[1], name)
    [] OTHER -> g

\* [op, i, s, x]: name i s; child i x (0 based) := j; add to i child j
Edit(g, op) ==
  CASE op.op = "name"  -> SetName(g, op.i, op.s)
    [] op.op = "child" ->
       [g EXCEPT ![op.i].ch = IF @ = <<>> THEN <<op.j>> ELSE [@ EXCEPT ![op.x + 1] = op.j]]
    [] op.op = "add"   -> [g EXCEPT ![op.i].ch = Append(@, op.j)]
    [] OTHER -> g

RECURSIVE EditAll(_, _, _)
EditAll(g, ops, k) == IF k > Len(ops) THEN g ELSE EditAll(Edit(g, ops[k]), ops, k + 1)

BindingValue(b) == IF b.t = "str" THEN StrV(b.v) ELSE MatV(b.i)
BindingName(g, b) == IF b.t = "mat" /\ b.reg THEN g[b.i].n ELSE b.n

RECURSIVE BindAll(_, _, _, _)
BindAll(g, stack, bs, k) ==
  IF k > Len(bs) THEN stack
  ELSE BindAll(g, StackSet(stack, BindingName(g, bs[k]), BindingValue(bs[k])), bs, k + 1)

RECURSIVE PushAll(_, _, _, _)
PushAll(g, stack, levels, k) ==
  IF k > Len(levels) THEN stack
  ELSE PushAll(g, BindAll(g, Append(stack, EmptyScope), levels[k], 1), levels, k + 1)

BeginRun ==
  /\ ctl.k = "start"
  /\ LET x == cas.runs[run + 1]
         g == EditAll(gr, x.ops, 1)
         main == IF x.keep THEN scp[1] ELSE BindAll(g, <<>>, cas.main, 1)
     IN /\ gr' = g
        /\ scp' = [scp EXCEPT ![1] = main]
        /\ ctl' = Call(cas.root, x.lo, x.hi, 0, 1)
  /\ run' = run + 1
  /\ stk' = <<>>
  /\ step' = step + 1
  /\ UNCHANGED <<cas, heap, outs, hks>>

\* The scopes of contexts at the start: that of the parser, and those that are given
InitialScopes(c) == << <<>> >> \o [k \in 1..Len(c.scopes) |-> PushAll(c.g, <<>>, c.scopes[k], 1)]

InitCase(c) ==
  /\ cas = c
  /\ gr = c.g
  /\ run = 0
  /\ ctl = StartRun
  /\ stk = <<>>
  /\ heap = <<>>
  /\ scp = InitialScopes(c)
  /\ outs = <<>>
  /\ hks = <<>>
  /\ step = 0

Next ==
  \/ BeginRun \/ FinishRun \/ TooDeep
  \/ EnterEquals \/ EnterMatches \/ EnterSequence \/ EnterNull \/ EnterRegister \/ EnterStoreText
  \/ EnterBreak \/ EnterPanic \/ EnterError \/ EnterEmit \/ EnterPin
  \/ EnterWrapper \/ EnterDebug \/ EnterSetScope \/ EnterRef \/ EnterProgram
  \/ ProgramToken \/ ProgramSkip \/ ProgramFail \/ ProgramError
  \/ ProgramBreak \/ ProgramContinue \/ ProgramStop \/ ProgramNone
  \/ ResumeNot \/ ResumeOptional \/ ResumePlain \/ ResumeSetScope \/ ResumeStore
  \/ ResumeDiscard \/ ResumeFlatten \/ ResumeExpandRange \/ ResumeAssert
  \/ ResumeMap \/ ResumeCatch \/ CallFunction
=============================================================================
