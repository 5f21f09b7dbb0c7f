--------------------------------- MODULE MC ---------------------------------
(* Explores a family of cases (one behaviour per case), checking the         *)
(* properties of Props in every state, and prints what the implementation    *)
(* must do in each case.                                                     *)
EXTENDS Catalog, Json

\* The same family, one level deeper, under a root with one operand
Deeper(G) ==
  [G EXCEPT !.depth = @ + 1, !.roots = <<Prg(1)>> \o SelectSeq(@, LAMBDA op : op.ar = 1)]

F == IF IOEnv.DEEPER = "1" THEN Deeper(Family(IOEnv.FAMILY)) ELSE Family(IOEnv.FAMILY)

\* A large family is explored in pieces of at most LIMIT cases (every Stride-th case)
Size == FamilySize(F)
Stride == (Size + atoi(IOEnv.LIMIT) - 1) \div atoi(IOEnv.LIMIT)
Offset == atoi(IOEnv.PIECE) % Stride
Chosen == (Size - 1 - Offset) \div Stride

\* (in an order in which grammars that follow each other differ in everything)
RECURSIVE TimesModulo(_, _, _)
TimesModulo(x, y, m) ==
  IF y = 0 THEN 0
  ELSE LET h == TimesModulo(x, y \div 2, m) IN ((((h + h) % m) + (IF y % 2 = 1 THEN x ELSE 0)) % m)
IndexAt(k) == TimesModulo(1000003 % Size, Offset + k * Stride, Size)

ASSUME PrintT("@SIZE " \o ToString(Size) \o " " \o ToString(Stride) \o " " \o ToString(Chosen + 1))

MCInit == \E k \in 0..Chosen : InitCase(FamilyCase(F, IndexAt(k)))

\* What the patterns say about themselves, as they are made and after edits: their names, whether these are their own, and children
SelfNamed == {"Program", "Switch", "Loop", "Flatten", "Ref", "Store", "StoreS", "Equals", "Matches", "Sequence", "Pin"}
ShapeOf(g) == [k \in 1..Len(g) |-> [own |-> g[k].k # "Emit",
                                 n |-> IF g[k].k \in SelfNamed THEN g[k].n ELSE DefaultName(g[k].k),
                                 cu |-> g[k].k \in SelfNamed /\ g[k].cu, ch |-> IF g[k].k = "Emit" THEN <<>> ELSE g[k].ch]]
Shapes == [k \in 1..Len(outs) |-> IF k > 1 /\ cas.runs[k].ops = <<>> THEN <<>> ELSE ShapeOf(GrammarAt(k))]

Report ==
  /\ ctl.k \in {"done", "undef"}
  /\ PrintT("@@" \o ToJson([c |-> cas, u |-> ctl.k = "undef", outs |-> outs, hks |-> hks, sh |-> Shapes]))
  /\ ctl' = [ctl EXCEPT !.k = "reported"]
  /\ UNCHANGED <<cas, gr, run, stk, heap, scp, outs, hks, step>>

MCNext == Next \/ Report

MCView == <<cas.id, step, ctl.k>>
=============================================================================
