-------------------------------- MODULE Props -------------------------------
(* The properties, over the states and steps of Engine.  TLC checks them in  *)
(* every state of every exploration: those of the families (MC) and those of *)
(* the executions recorded from the implementation (Trace).                  *)
EXTENDS Peg

Has(kinds) == \E k \in 1..Len(gr) : gr[k].k \in kinds
NoneOf(kinds) == \A k \in 1..Len(gr) : gr[k].k \notin kinds
Finished == ctl.k = "done"

\* Matchers after which offsets can go anywhere
Wild == {"Pin", "Emit"}
\* Functions of Map that turn a token into something else
Skipping == \E k \in 1..Len(gr) : gr[k].k = "Map" /\ gr[k].sf \in {"skip", "skip0", "prox", "brk", "cont"}

-----------------------------------------------------------------------------
(* C01-C03, C06-C10, C31: the machine does what the grammar means, with the edits that were made to it *)
MeaningKept ==
  Finished /\ IsPeg =>
    \A k \in 1..Len(outs) : ListedOutcome(outs[k]) = MeaningOfRun(k)

(* C06, C30: every matcher is entered with a part of the source, between characters *)
WindowsReadable ==
  ctl.k = "call" /\ NoneOf(Wild) /\ ~Skipping => IsWindow(Src, ctl.lo, ctl.hi)

(* C01: a program goes forward through its window *)
ProgramsAdvance ==
  NoneOf(Wild) /\ ~Skipping =>
    \A k \in 1..Len(stk) : stk[k].lo <= stk[k].s /\ stk[k].s <= stk[k].hi /\ IsBoundary(Src, stk[k].s)

(* C03: loops keep to their bounds *)
LoopsBounded ==
  \A k \in 1..Len(stk) :
    Kind(stk[k].id) = "Loop" /\ gr[stk[k].id].max # -1 => stk[k].cnt < gr[stk[k].id].max

(* C04: past its minimum, no loop repeats without progress *)
LoopsProgress ==
  [][\A k \in 1..Len(stk) :
       /\ Kind(stk[k].id) = "Loop" /\ k <= Len(stk')
       /\ stk'[k].id = stk[k].id /\ stk'[k].tok = stk[k].tok
       /\ stk'[k].cnt = stk[k].cnt + 1
       => stk'[k].cnt < gr[stk[k].id].min \/ stk'[k].s > stk[k].ist]_vars

(* C14: scopes are pushed and popped in balance *)
ScopesBalanced ==
  LET n == Cardinality({k \in 1..Len(stk) : Kind(stk[k].id) = "SetScope" /\ gr[stk[k].id].sx = 0})
      m == Len(scp[1])
  IN ctl.k \in {"call", "ret", "hook"} => m - n \in {0, 1}

(* C14: what a scoped matcher sets is gone afterwards: only the innermost scope ever changes *)
OuterScopesKept ==
  [][\A k \in 1..Len(scp) :
       ctl.k \in {"call", "ret", "hook"} =>
         \A m \in 1..(Min2(Len(scp[k]), Len(scp'[k])) - 1) :
           scp'[k][m] = scp[k][m]]_vars

(* C15: a fatal error ends everything that is running, except where it is caught *)
FatalIsFatal ==
  [][ctl.k = "ret" /\ ctl.r.t = "err" /\ stk # <<>> /\ Kind(Top.id) \notin {"Map", "Catch"}
     => ctl'.k = "ret" /\ ctl'.r = ctl.r]_vars
FatalOutcome ==
  [][ctl.k = "ret" /\ ctl.r.t = "err" /\ stk = <<>> => outs'[Len(outs')].t = "err"]_vars

(* C15: fatal errors are located inside of the source *)
FatalLocated ==
  ctl.k = "ret" /\ ctl.r.t = "err" /\ NoneOf(Wild) /\ ~Skipping =>
    NoRange(ctl.r) \/ (0 <= ctl.r.i /\ ctl.r.i <= ctl.r.j /\ ctl.r.j <= Len(Src))

(* C16: the errors of a parse are children of its token, each exactly once *)
ErrorsOf(h, root) ==
  LET pre == PreOrder(h, root) IN SelectSeq(pre, LAMBDA k : IsErrorTok(h[k]))
NestedErrors(h, root) ==
  {e \in {ErrorsOf(h, root)[k] : k \in 1..Len(ErrorsOf(h, root))} : e # root}
ErrorsHoisted ==
  [][ctl.k = "ret" /\ stk = <<>> /\ RootOf(ctl.r) # 0 =>
       LET root == RootOf(ctl.r)
           kids == heap'[root].kids
           es == NestedErrors(heap, root)
       IN \A e \in es : Cardinality({k \in 1..Len(kids) : kids[k] = e}) = 1 /\ heap'[e].par = root]_vars
NothingElseMoves ==
  [][ctl.k = "ret" /\ stk = <<>> /\ RootOf(ctl.r) # 0 =>
       LET root == RootOf(ctl.r)
           plain(h) == SelectSeq(PreOrder(h, root), LAMBDA k : ~IsErrorTok(h[k]))
       IN (\A e \in NestedErrors(heap, root) : heap[e].kids = <<>>) => plain(heap) = plain(heap')]_vars

(* C17: tokens nest: children are in order and inside of the range their parent matched *)
Orderly == NoneOf(Wild \cup {"Error", "AssertIf", "AssertIfNot", "Discard", "Map", "Catch", "Store", "ExpandRange"})
Ordered(tree, k) ==
  LET kids == {m \in 1..Len(tree) : tree[m].r[6] = k}
  IN \A x \in kids, y \in kids : x < y => tree[x].r[4] <= tree[y].r[3]
TokensNest ==
  Finished /\ Orderly =>
    \A o \in 1..Len(outs) : LET t == outs[o].tree IN
      \A k \in 1..Len(t) :
        /\ t[k].r[3] <= t[k].r[1] /\ t[k].r[1] <= t[k].r[2] /\ t[k].r[2] <= t[k].r[4]
        /\ cas.runs[o].lo <= t[k].r[3] /\ t[k].r[4] <= cas.runs[o].hi
        /\ Ordered(t, k)
        /\ LET p == t[k].r[6] IN p > 0 => t[p].r[3] <= t[k].r[3] /\ t[k].r[4] <= t[p].r[4]

(* C17: the parent of a token is the token it is a child of *)
\* The parent of k in a pre-order list: the last token before k whose subtree is not complete
Subtree(tree, k) ==
  LET RECURSIVE End(_, _)
      End(m, open) == IF open = 0 THEN m - 1 ELSE End(m + 1, open - 1 + tree[m].r[5])
  IN End(k, 1)
ParentInOrder(tree, k) ==
  LET ps == {p \in 1..(k - 1) : Subtree(tree, p) >= k} IN IF ps = {} THEN 0 ELSE MaxOf(ps)
ParentsRight ==
  Finished /\ NoneOf({"Store", "Emit", "Map", "Catch"}) =>
    \A o \in 1..Len(outs) : LET t == outs[o].tree IN
      \A k \in 2..Len(t) : t[k].r[6] = ParentInOrder(t, k)

(* C17: captured and matched text is the text of the ranges *)
TextRight ==
  Finished =>
    \A o \in 1..Len(outs) : LET t == outs[o].tree IN
      \A k \in 1..Len(t) : NoneOf({"Pin", "Store"}) =>
        /\ t[k].c = Slice(cas.runs[o].src, t[k].r[1], t[k].r[2])
        /\ t[k].m = Slice(cas.runs[o].src, t[k].r[3], t[k].r[4])

(* C18: functions are called as often as there is something to call them with *)
HooksOnce ==
  [][ctl.k = "ret" /\ stk # <<>> =>
       LET calls ==
             \/ Kind(Top.id) = "Map" /\ ctl.r.t \in {"tok", "prox"}
             \/ Kind(Top.id) = "Map" /\ ctl.r.t \in {"fail", "err"} /\ gr[Top.id].ff # "none"
             \/ Kind(Top.id) = "Catch" /\ ctl.r.t \in {"fail", "err"}
       IN (ctl'.k = "hook") = calls]_vars

(* C29, C31: the same parse with the same grammar has the same outcome, whatever was parsed before, *)
(* and whatever the grammar was before                                                              *)
Repeatable ==
  Finished =>
    \A j \in 1..Len(outs), k \in 1..Len(outs) :
      j < k /\ [cas.runs[j] EXCEPT !.ops = <<>>] = [cas.runs[k] EXCEPT !.ops = <<>>] /\ ~cas.runs[k].keep
      /\ ((\A m \in (j + 1)..k : cas.runs[m].ops = <<>>) \/ GrammarAt(j) = GrammarAt(k))
      /\ cas.scopes = <<>>
      => outs[j] = outs[k]

(* C19: the same parse has the same outcome when debugging is taken away.    *)
(* The edits that take it away: what a debugging pattern debugs takes its    *)
(* place as a child (where children can be replaced)                         *)
CanReplace == {"Program", "Switch", "Loop", "Flatten", "Not", "Optional", "Discard", "SetScope", "ExpandRange", "Catch"} \cup MapKinds

RECURSIVE Debugged(_, _)
Debugged(g, id) == IF g[id].k = "Debug" /\ g[id].ch # <<>> THEN Debugged(g, g[id].ch[1]) ELSE id

RECURSIVE UndebugFrom(_, _, _)
UndebugFrom(g, i, x) ==
  IF i > Len(g) THEN <<>>
  ELSE IF g[i].k \notin CanReplace \/ x > Len(g[i].ch) THEN UndebugFrom(g, i + 1, 1)
  ELSE LET d == Debugged(g, g[i].ch[x])
       IN (IF d = g[i].ch[x] THEN <<>> ELSE << [op |-> "child", i |-> i, s |-> "", x |-> x - 1, j |-> d] >>)
          \o UndebugFrom(g, i, x + 1)
Undebug(g) == UndebugFrom(g, 1, 1)

\* (a pattern that is registered is known by the name of the debugging pattern around it)
DebugTransparent ==
  Finished /\ Has({"Debug"}) /\ NoneOf({"Register"}) /\ cas.scopes = <<>> =>
    \A u \in 1..Len(outs) :
      cas.runs[u].ops # <<>> /\ cas.runs[u].ops = Undebug(cas.g) /\ (\A m \in 1..Len(outs) : m # u => cas.runs[m].ops = <<>>) =>
        \A j \in 1..(u - 1), k \in u..Len(outs) :
          ~cas.runs[j].keep /\ [cas.runs[k] EXCEPT !.ops = <<>>] = cas.runs[j] => outs[j] = outs[k]
=============================================================================
