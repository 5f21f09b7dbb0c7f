------------------------------ MODULE Families ------------------------------
(* Finite families of cases, enumerated exhaustively: every grammar that can *)
(* be built from given leaves and operators up to a depth, on every input    *)
(* over an alphabet up to a length, in every given surrounding of the input. *)
(*                                                                           *)
(* A family is a record                                                      *)
(*   leaves  the leaves                                                      *)
(*   ops     the operators, as [nd |-> node, ar |-> number of children]      *)
(*   roots   the operators at the root of the grammar                        *)
(*   depth   the depth of the operands of the root                           *)
(*   layers  instead of ops, roots and depth: a list of lists of operators,  *)
(*           outermost first (see Layered)                                   *)
(*   tables  instead of all of these: a list of grammars                     *)
(*   edits   for each grammar: lists of lists of edits, one list before each   *)
(*           repetition of the parses                                          *)
(*   extra   nodes that are always there: numbered from 1, before the others *)
(*   chars   the characters of inputs                                        *)
(*   len     the length of inputs (in characters)                            *)
(*   inputs  further inputs                                                  *)
(*   around  what is before and after inputs, outside of the window          *)
(*   chunk   the number of parses in a case                                  *)
(*   main, scopes, watch, nt, file, keep, again   as in cases                *)
EXTENDS Props

\* Nodes
Nd(k, n, cu) == [k |-> k, n |-> n, cu |-> cu, ch |-> <<>>, via |-> 0]
Str(v)     == [t |-> "s", v |-> v, s |-> ""]
Var(v, s)  == [t |-> "f", v |-> v, s |-> s]
Direct(i)  == [t |-> "m", v |-> i, s |-> ""]
ByName(n)  == [t |-> "n", v |-> n, s |-> ""]

Eq(v)        == Nd("Equals", "Equals", FALSE) @@ [pat |-> Str(v)]
EqN(n, v)    == Nd("Equals", n, TRUE) @@ [pat |-> Str(v)]
EqVar(v, s)  == Nd("Equals", "Equals", FALSE) @@ [pat |-> Var(v, s)]
Re(alts)     == Nd("Matches", "Matches", FALSE) @@ [alts |-> alts]
ReN(n, alts) == Nd("Matches", n, TRUE) @@ [alts |-> alts]
Item(b, mn, mx) == [t |-> "set", neg |-> FALSE, rs |-> << <<b, b>> >>, min |-> mn, max |-> mx, lazy |-> FALSE]
Seqn(a, b, c) == Nd("Sequence", "Sequence", FALSE) @@ [st |-> Str(a), en |-> Str(b), es |-> Str(c)]
Plain(k)     == Nd(k, DefaultName(k), FALSE)
Named(k, n)  == Nd(k, n, TRUE)
LoopOf(mn, mx) == Plain("Loop") @@ [min |-> mn, max |-> mx]
LoopN(n, mn, mx) == Named("Loop", n) @@ [min |-> mn, max |-> mx]
PinAt(v)     == Plain("Pin") @@ [off |-> Str(v)]
PinVar(v, s) == Plain("Pin") @@ [off |-> Var(v, s)]
StoreAs(v)   == Named("Store", v)
StoreText(v, t) == Named("StoreS", v) @@ [v |-> t]
RefTo(n)     == Plain("Ref") @@ [tgt |-> ByName(n)]
RefDirect(i) == Plain("Ref") @@ [tgt |-> Direct(i)]
RefVar(v)    == Plain("Ref") @@ [tgt |-> Var(v, "")]
Scoped(sx)   == Plain("SetScope") @@ [sx |-> sx]
WithMsg(k, m) == Plain(k) @@ [msg |-> m]
BreakTo(n)   == Plain("Break") @@ [ln |-> n]
MapOf(sf, ss, sv, ff, fm) == Plain("Map") @@ [sf |-> sf, ss |-> ss, sv |-> sv, ff |-> ff, fm |-> fm]
CatchOf(ff, fm) == Plain("Catch") @@ [ff |-> ff, fm |-> fm]
DebugOf(m)   == Plain("Debug") @@ [mode |-> m]
Payload(t, n) == [t |-> t, n |-> n, s |-> "E"]
Emitting(t, n) == Plain("Emit") @@ [cns |-> TRUE, res |-> [t |-> t, n |-> n, s |-> "E", p |-> Payload("none", 0)]]
EmitLoop(t, s, p) == Plain("Emit") @@ [cns |-> TRUE, res |-> [t |-> t, n |-> 0, s |-> s, p |-> p]]

Op(nd, ar) == [nd |-> nd, ar |-> ar]

\* Numbers as digits of mixed radix
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)

RECURSIVE OpsCount(_, _, _)
OpsCount(ops, n, k) == IF k > Len(ops) THEN 0 ELSE Power(n, ops[k].ar) + OpsCount(ops, n, k + 1)

RECURSIVE Terms(_, _)
Terms(F, d) == IF d = 0 THEN Len(F.leaves) ELSE Len(F.leaves) + OpsCount(F.ops, Terms(F, d - 1), 1)

\* Term i (from 0) of depth d as a table whose last node is the root; ids start after base
RECURSIVE TermTable(_, _, _, _)
RECURSIVE OpTable(_, _, _, _, _, _)
RECURSIVE KidTables(_, _, _, _, _, _, _, _)

\* Operator term i, the operators from k on, with operands of depth d
OpTable(F, ops, d, i, base, k) ==
  LET n == Terms(F, d)
      size == Power(n, ops[k].ar)
  IN IF i >= size THEN OpTable(F, ops, d, i - size, base, k + 1)
     ELSE KidTables(F, ops[k], d, n, i, base, <<>>, <<>>)

\* tab: the tables of the operands so far, ch: their ids
KidTables(F, op, d, n, i, base, tab, ch) ==
  IF Len(ch) = op.ar THEN Append(tab, [op.nd EXCEPT !.ch = ch])
  ELSE LET t == tab \o TermTable(F, d, i % n, base + Len(tab))
       IN KidTables(F, op, d, n, i \div n, base, t, Append(ch, base + Len(t)))

TermTable(F, d, i, base) ==
  IF i < Len(F.leaves) THEN << F.leaves[i + 1] >>
  ELSE OpTable(F, F.ops, d - 1, i - Len(F.leaves), base, 1)

\* Layered grammars: one operator of each layer around one of those of the next, around a leaf;
\* the further operands of an operator (before and after) are given tables, with ids from 1
Lay(nd, pre, post) == [nd |-> nd, pre |-> pre, post |-> post]

Moved(tab, base) == [k \in 1..Len(tab) |-> [tab[k] EXCEPT !.ch = [m \in 1..Len(tab[k].ch) |-> tab[k].ch[m] + base]]]
RECURSIVE MovedAll(_, _)
MovedAll(tabs, base) ==
  IF tabs = <<>> THEN [t |-> <<>>, ids |-> <<>>]
  ELSE LET r == MovedAll(Tail(tabs), base + Len(tabs[1]))
       IN [t |-> Moved(tabs[1], base) \o r.t, ids |-> <<base + Len(tabs[1])>> \o r.ids]

\* The layers from k on, chosen by the digits of i, as a table
RECURSIVE Layered(_, _, _, _)
Layered(F, i, k, base) ==
  IF k > Len(F.layers) THEN << F.leaves[(i % Len(F.leaves)) + 1] >>
  ELSE LET n == Len(F.layers[k])
           op == F.layers[k][(i % n) + 1]
           inner == Layered(F, i \div n, k + 1, base)
           x == base + Len(inner)
           before == MovedAll(op.pre, x)
           after == MovedAll(op.post, x + Len(before.t))
       IN inner \o before.t \o after.t \o << [op.nd EXCEPT !.ch = before.ids \o <<x>> \o after.ids] >>

RECURSIVE LayerCount(_, _)
LayerCount(F, k) == IF k > Len(F.layers) THEN Len(F.leaves) ELSE Len(F.layers[k]) * LayerCount(F, k + 1)

Grammars(F) == IF F.tables # <<>> THEN Len(F.tables) ELSE IF F.layers # <<>> THEN LayerCount(F, 1) ELSE OpsCount(F.roots, Terms(F, F.depth), 1)
GrammarOf(F, i) ==
  F.extra \o (IF F.tables # <<>> THEN F.tables[i + 1]
              ELSE IF F.layers # <<>> THEN Layered(F, i, 1, Len(F.extra))
              ELSE OpTable(F, F.roots, F.depth, i, Len(F.extra), 1))

\* Inputs: the words over F.chars up to length F.len, then F.inputs
RECURSIVE Words(_, _)
Words(n, l) == IF l = 0 THEN 1 ELSE 1 + n * Words(n, l - 1)
RECURSIVE WordOf(_, _)
WordOf(chars, i) ==
  IF i = 0 THEN <<>>
  ELSE chars[((i - 1) % Len(chars)) + 1] \o WordOf(chars, (i - 1) \div Len(chars))

InputCount(F) == Words(Len(F.chars), F.len) + Len(F.inputs)
InputOf(F, i) ==
  LET w == Words(Len(F.chars), F.len)
  IN IF i < w THEN WordOf(F.chars, i) ELSE F.inputs[i - w + 1]

RunCount(F) == InputCount(F) * Len(F.around)
RunOf(F, i) ==
  LET x == InputOf(F, i \div Len(F.around))
      a == F.around[(i % Len(F.around)) + 1]
  IN [src |-> a[1] \o x \o a[2], lo |-> Len(a[1]), hi |-> Len(a[1]) + Len(x),
      full |-> a = << <<>>, <<>> >>, keep |-> FALSE, ops |-> <<>>]

Chunks(F) == (RunCount(F) + F.chunk - 1) \div F.chunk
\* Edits: of node 0, the root; of -1, the innermost leaf; of -2, what is around that. Only edits that can be made are
Target(F, g, i) ==
  LET leaf == Len(F.extra) + 1 IN
  CASE i = 0 -> Len(g) [] i = -1 -> leaf
    [] i = -2 -> MinOf({Len(g)} \cup {k \in 1..Len(g) : \E m \in 1..Len(g[k].ch) : g[k].ch[m] = leaf}) [] OTHER -> i
Aimed(F, g, op) == [op EXCEPT !.i = Target(F, g, op.i), !.j = IF op.op = "name" THEN 0 ELSE Target(F, g, op.j)]
CanEdit(g, op) ==
  CASE op.op = "child" -> IF g[op.i].k = "Debug" THEN op.x = 0 ELSE g[op.i].k \in CanReplace /\ op.x < Len(g[op.i].ch)
    [] op.op = "add" -> g[op.i].k \in {"Program", "Switch", "Loop", "Register"}
    [] OTHER -> TRUE
RECURSIVE EditsOf(_, _, _, _)
EditsOf(F, g, ops, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET op == Aimed(F, g, ops[k])
       IN IF CanEdit(g, op) THEN <<op>> \o EditsOf(F, Edit(g, op), ops, k + 1) ELSE EditsOf(F, g, ops, k + 1)
RECURSIVE EditedRuns(_, _, _, _, _)
EditedRuns(F, g, rs, es, k) ==
  IF k > Len(es) THEN <<>>
  ELSE LET ops == EditsOf(F, g, es[k], 1)
       IN << [rs[1] EXCEPT !.ops = ops] >> \o SubSeq(rs, 2, Len(rs)) \o EditedRuns(F, EditAll(g, ops, 1), rs, es, k + 1)

ChunkRuns(F, g, c, e) ==
  LET n == Min2(F.chunk, RunCount(F) - c * F.chunk)
      rs == [k \in 1..n |-> RunOf(F, c * F.chunk + k - 1)]
  IN CASE F.edits # <<>> -> rs \o EditedRuns(F, g, rs, F.edits[(e % Len(F.edits)) + 1], 1)
       [] F.again = "fresh" -> Append(rs, rs[1])
       [] F.again = "keep" ->
          [k \in 1..(2 * n) |-> IF k % 2 = 1 THEN rs[(k + 1) \div 2] ELSE [rs[k \div 2] EXCEPT !.keep = TRUE]]
       [] F.again = "undebugged" ->
          rs \o << [rs[1] EXCEPT !.ops = Undebug(g)] >> \o SubSeq(rs, 2, n)
       [] OTHER -> rs

EditCount(F) == IF F.edits = <<>> THEN 1 ELSE Len(F.edits)
FamilySize(F) == Grammars(F) * Chunks(F) * EditCount(F)
FamilyCase(F, k) ==
  LET i == k \div EditCount(F)
      g == GrammarOf(F, i \div Chunks(F))
  IN [id |-> k + 1, probe |-> FALSE, g |-> g, root |-> Len(g), runs |-> ChunkRuns(F, g, i % Chunks(F), k % EditCount(F)),
      scopes |-> F.scopes, main |-> F.main, watch |-> F.watch, file |-> F.file, nt |-> F.nt]

-----------------------------------------------------------------------------
(* The families *)
a == 97
b == 98
A1 == <<97>>
B1 == <<98>>
AB == <<97, 98>>
None1 == << << <<>>, <<>> >> >>

Base ==
  [leaves |-> <<Eq(A1), Eq(B1)>>, ops |-> <<>>, roots |-> <<Op(Plain("Program"), 2)>>, depth |-> 1,
   layers |-> <<>>, tables |-> <<>>, edits |-> <<>>, extra |-> <<>>, chars |-> <<A1, B1>>, len |-> 3, inputs |-> <<>>, around |-> None1, chunk |-> 15,
   main |-> <<>>, scopes |-> <<>>, watch |-> <<>>, nt |-> <<>>, file |-> <<>>, again |-> "no"]

BindM(n, i) == [n |-> n, t |-> "mat", i |-> i, reg |-> FALSE, v |-> <<>>]
BindS(n, v) == [n |-> n, t |-> "str", i |-> 0, reg |-> FALSE, v |-> v]

Prg(n) == Op(Plain("Program"), n)
Swi(n) == Op(Plain("Switch"), n)
Un(nd) == Op(nd, 1)

=============================================================================
