------------------------------- MODULE ScriptMC ------------------------------
(* Compiles scripts (families of syntax trees, written down in several       *)
(* layouts; damaged texts; scripts of a file), and runs what they mean in    *)
(* Engine; prints what the implementation must make of each script.          *)
(*                                                                           *)
(* A case is [id, inline, files, runs, ast]: files as in Compile (the first  *)
(* is compiled; inline: its text alone), ast the syntax tree it was written  *)
(* from, if there is one; files and trees of the others are not kept.        *)
EXTENDS Compile, ScriptFamilies, Cases

Spec == IF FromFile THEN <<>> ELSE <<ScriptFamily(IOEnv.FAMILY)>>
Size == IF FromFile THEN Len(FileCases) ELSE ScriptFamilySize(Spec[1])
ASSUME Announce(Size)

CaseCount == IF FromFile THEN Size ELSE ChosenOf(Size)
CaseAt(k) ==
  IF FromFile THEN FileCases[k] @@ [ast |-> <<>>]
  ELSE LET i == ScatteredIndex(Size, k) IN [id |-> k] @@ ScriptCase(Spec[1], i)

Compiled(c) ==
  IF c.inline THEN CompileText(<<>>, <<0>>, Nothing, c.files[1].s, "Root")
  ELSE CompileFile(c.files, <<1>>, Nothing, "")

Verdict(S) == IF S.unk THEN "unknown" ELSE IF S.bad # <<>> THEN "rejected" ELSE "ok"
\* Where the one thing that is wrong is
Location(c, S) ==
  IF c.inline /\ Len(S.bad) = 1 /\ S.bad[1] # Somewhere THEN <<S.bad[1]>> ELSE <<>>

WholeText(t) == [src |-> t, lo |-> 0, hi |-> Len(t), full |-> TRUE, keep |-> FALSE, ops |-> <<>>]

\* The case of engine that a compiled script is
EngineCase(c, x, v) ==
  [id |-> c.id, probe |-> FALSE, g |-> IF v = "ok" THEN x.S.g ELSE <<Plain("Null")>>,
   root |-> IF v = "ok" THEN x.root ELSE 1,
   runs |-> IF v = "ok" THEN [k \in 1..Len(c.runs) |-> WholeText(c.runs[k])] ELSE <<WholeText(<<>>)>>,
   scopes |-> IF v = "ok" THEN x.S.sc ELSE <<>>,
   main |-> <<>>, watch |-> <<>>, file |-> <<>>, nt |-> <<>>,
   verdict |-> v, loc |-> Location(c, x.S),
   \* w: from which directory the first file is named, and how, and whether errors are logged. What a
   \* script means does not depend on it.
   script |-> [id |-> c.id, inline |-> c.inline, files |-> c.files, runs |-> c.runs, w |-> c.id % 4], ast |-> c.ast]

ScriptInit ==
  /\ \E k \in 1..CaseCount : cas = [id |-> k]
  /\ gr = <<>> /\ run = 0 /\ ctl = [k |-> "load"] /\ stk = <<>> /\ heap = <<>> /\ scp = << <<>> >>
  /\ outs = <<>> /\ hks = <<>> /\ step = 0

Load ==
  /\ ctl.k = "load"
  /\ LET c == CaseAt(cas.id)
         x == Compiled(c)
         e == EngineCase(c, x, Verdict(x.S))
     IN /\ cas' = e
        /\ gr' = e.g
        /\ ctl' = StartRun
        /\ scp' = InitialScopes(e)
        /\ step' = 1
  /\ UNCHANGED <<run, stk, heap, outs, hks>>

ReportScript ==
  /\ ctl.k \in {"done", "undef"}
  /\ PrintT("@@" \o ToJson([c |-> cas.script, verdict |-> IF ctl.k = "undef" THEN "undef" ELSE cas.verdict, loc |-> cas.loc,
                            outs |-> IF cas.verdict = "ok" THEN outs ELSE <<>>]))
  /\ ctl' = [ctl EXCEPT !.k = "reported"]
  /\ UNCHANGED <<cas, gr, run, stk, heap, scp, outs, hks, step>>

ScriptNext == Load \/ Next \/ ReportScript

ScriptView == <<cas.id, step, ctl.k>>

\* C24-C27: what is written can be read, whatever the layout
RoundTrip ==
  step = 1 /\ ctl.k = "start" /\ cas.ast # <<>> =>
    LET x == ReadScript(cas.script.files[1].s) IN x.ok /\ x.v = cas.ast[1]
=============================================================================
