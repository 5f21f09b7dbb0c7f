------------------------------- MODULE Catalog ------------------------------
(* The families that are explored for each property (see Families).          *)
EXTENDS Families, IOUtils

Big == IOEnv.BIG = "1"
Pick(small, big) == IF Big THEN big ELSE small

AStar == Re(<< <<Item(a, 0, -1)>> >>)
BOpt  == Re(<< <<Item(b, 0, 1)>> >>)
Set(b1, b2, mn, mx, neg, lazy) ==
  [t |-> "set", neg |-> neg, rs |-> << <<b1, b2>> >>, min |-> mn, max |-> mx, lazy |-> lazy]
BolI == [t |-> "bol"]
EolI == [t |-> "eol"]

Quote == <<34>>
Paren == <<41>>
Slash == <<92>>
EAcute == <<195, 169>>
Euro == <<226, 130, 172>>
Smile == <<240, 159, 152, 128>>
Bad == <<98, 97, 100>>
No2 == <<110, 111>>

Optional1 == Un(Plain("Optional"))
Not1 == Un(Plain("Not"))
Discard1 == Un(Plain("Discard"))
Flatten1 == Un(Plain("Flatten"))
Expand1 == Un(Plain("ExpandRange"))
Loop1(mn, mx) == Op(LoopOf(mn, mx), 1)
Loop2(mn, mx) == Op(LoopOf(mn, mx), 2)

Surroundings == << << <<>>, <<>> >>, <<A1, B1>>, <<B1, A1>>, <<AB, <<>> >> >>

-----------------------------------------------------------------------------
(* Every construct inside of every other one: a construct K in some          *)
(* surroundings, around (or inside of) each wrapping, around each leaf       *)
One(nd) == Lay(nd, <<>>, <<>>)
EqA == << Eq(A1) >>
EqB == << Eq(B1) >>
Err1 == << WithMsg("Error", Bad) >>

Leaves == <<Eq(A1), EqN("X", AB), AStar, Plain("Null"), PinAt(<<>>), Named("Pin", "Here") @@ [off |-> Str(<<>>)],
            BreakTo(""), BreakTo("L"), WithMsg("Error", Bad), WithMsg("Panic", Bad), RefTo("none"),
            Emitting("skip", 1), Emitting("skip", -1), Emitting("skip", 0), Emitting("stop", 0), Emitting("tok", 1), Emitting("prox", 1),
            EmitLoop("cont", "", Payload("tok", 1)), EmitLoop("cont", "L", Payload("skip", 1)), EmitLoop("cont", "", Payload("none", 0)),
            EmitLoop("brk", "", Payload("prox", 1)), EmitLoop("brk", "L", Payload("tok", 1)),
            Seqn(A1, B1, <<>>), StoreText("v", A1)>>

Lists == <<Lay(Plain("Program"), <<EqA>>, <<>>), Lay(Plain("Program"), <<>>, <<EqA>>), Lay(Named("Program", "P"), <<>>, <<EqB>>),
           Lay(Plain("Program"), <<Err1>>, <<>>), Lay(Plain("Program"), <<EqA, Err1>>, <<EqB>>)>>
Choices == <<Lay(Plain("Switch"), <<EqB>>, <<>>), Lay(Plain("Switch"), <<>>, <<EqB>>), Lay(Named("Switch", "S"), <<>>, <<EqA>>)>>
Repeats == <<One(LoopOf(0, -1)), Lay(LoopOf(1, 2), <<>>, <<EqB>>), Lay(LoopN("L", 0, -1), <<EqA>>, <<>>), One(LoopOf(2, -1))>>
Nots == <<One(Plain("Optional")), One(Plain("Not"))>>
Drops == <<One(Plain("Discard"))>>
Flats == <<One(Plain("Flatten")), One(Plain("ExpandRange"))>>
Pins == <<One(PinAt(<<>>)), One(PinAt(<<48>>)), One(PinAt(<<43, 48, 46, 46, 43, 49>>)), One(PinAt(<<45, 49>>))>>
Stores == <<One(StoreAs("v"))>>
ScopesX == <<One(Scoped(0))>>
Maps == <<One(MapOf("tok", "", <<>>, "none", <<>>)), One(MapOf("name", "N", <<>>, "skip0", <<>>)), One(MapOf("skip", "", <<>>, "err", Bad)),
          One(MapOf("prox", "", <<>>, "errtok", Bad)), One(MapOf("brk", "", <<>>, "only", Bad)), One(MapOf("cont", "", <<>>, "pass", <<>>)),
          One(MapOf("warn", "", Bad, "errat", No2)), One(MapOf("own", "N", <<>>, "none", <<>>))>>
Catches == <<One(CatchOf("skip0", <<>>)), One(CatchOf("errtok", Bad)), One(CatchOf("errat", Bad)), One(CatchOf("only", Bad)), One(CatchOf("fail", <<>>))>>
Asserts == <<One(WithMsg("AssertIf", No2)), One(WithMsg("AssertIfNot", No2))>>
Fatals == <<One(WithMsg("FatalIf", No2)), One(WithMsg("FatalIfNot", No2))>>
Debugs == <<One(DebugOf(1)), One(DebugOf(2))>>

Wraps == Lists \o Choices \o Repeats \o Nots \o Drops \o Flats \o Pins \o Stores \o ScopesX \o SubSeq(Maps, 1, 2) \o SubSeq(Catches, 1, 2)
         \o Asserts \o Fatals \o SubSeq(Debugs, 1, 1)

Around1 == <<Lay(Plain("Program"), <<>>, <<EqB>>), Lay(Plain("Program"), <<EqA>>, <<>>), Lay(LoopN("L", 0, -1), <<>>, <<EqB>>)>>

Short == << <<>>, A1, B1, AB, <<98, 97>>, <<97, 97, 98>>, <<97, 98, 97, 98>> >>
Crossed(layers, leaves) ==
  [Base EXCEPT !.layers = layers, !.leaves = leaves, !.len = 0, !.inputs = Tail(Short), !.chunk = 7, !.watch = <<"v">>, !.main = <<BindS("v", B1)>>]
Outside(K) == Crossed(<<Around1, K, Wraps>>, Leaves)
Inside(K) == Crossed(<<Around1, Wraps, K>>, Leaves)

Jumps == <<BreakTo(""), BreakTo("L"), BreakTo("P"), EmitLoop("cont", "", Payload("tok", 1)), EmitLoop("cont", "L", Payload("skip", 1)),
           EmitLoop("cont", "", Payload("none", 0)), EmitLoop("cont", "L", Payload("prox", 1)),
           EmitLoop("brk", "", Payload("prox", 1)), EmitLoop("brk", "L", Payload("tok", 1)), EmitLoop("brk", "", Payload("skip", 1))>>
InLoops == <<Lay(LoopN("L", 0, -1), <<>>, <<EqB>>), Lay(LoopN("L", 1, 2), <<EqA>>, <<>>), Lay(LoopOf(0, -1), <<EqA>>, <<EqB>>)>>

\* A token is kept in a variable, and what there is to know about it is asked for
KeepAs(tab) == tab \o << [StoreAs("v") EXCEPT !.ch = <<Len(tab)>>] >>
Kept == <<KeepAs(EqA), KeepAs(<<AStar>>), KeepAs(<<Seqn(B1, A1, <<>>)>>), KeepAs(<<Eq(A1), [MapOf("val", "", B1, "none", <<>>) EXCEPT !.ch = <<1>>]>>),
          KeepAs(<<Seqn(B1, A1, <<>>), [Plain("Program") EXCEPT !.ch = <<1>>]>>), KeepAs(<<PinAt(<<>>)>>),
          KeepAs(<<Seqn(B1, A1, <<>>), [Plain("ExpandRange") EXCEPT !.ch = <<1>>]>>), <<StoreText("v", AB)>> >>
Asked == <<"captured_value", "matched_value", "start", "end", "captured_start", "captured_end", "range", "captured_range">>
Asking == [j \in 1..8 |-> EqVar("v", Asked[j])] \o [j \in 1..6 |-> PinVar("v", Asked[j + 2])] \o <<EqVar("v", "")>>
AfterKeeping == [j \in 1..Len(Kept) |-> Lay(Plain("Program"), <<Kept[j]>>, <<>>)]
\* the text a, ab, bxa, ... and after it any of the answers
Tells == << <<97, 97>>, <<97, 98>>, <<97, 48>>, <<97, 49>>, <<97, 48, 46, 46, 49>>, <<97, 97, 97, 97>>, <<97, 97, 50>>,
            <<98, 97, 98, 97>>, <<98, 98, 97, 98>>, <<98, 98, 97, 98, 98, 97>>, <<98, 98, 97, 48>>, <<98, 98, 97, 49>>, <<98, 98, 97, 50>>, <<98, 98, 97, 51>>,
            <<98, 98, 97, 48, 46, 46, 51>>, <<98, 98, 97, 49, 46, 46, 50>>, <<98, 97, 48, 46, 46, 50>>, <<98, 97, 49, 46, 46, 49>>, <<48>>, <<48, 46, 46, 48>> >>
PinVars == <<One(PinVar("v", "range")), One(PinVar("v", "captured_range")), One(PinVar("v", "start")), One(PinVar("v", "captured_end"))>>

\* Every way to write a place
Offsets == << <<>>, <<43>>, <<45>>, <<48>>, <<43, 48>>, <<45, 48>>, <<49>>, <<43, 49>>, <<45, 49>>, <<50>>, <<43, 50>>, <<45, 50>>, <<51>>, <<43, 51>>, <<57>>, <<43, 57>>, <<45, 57>> >>
\* with 10, 19, 20 and 30 digits
Huge == << [j \in 1..10 |-> 57], <<43>> \o [j \in 1..19 |-> 57], <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>,
           <<45, 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>, <<43>> \o [j \in 1..20 |-> 57], [j \in 1..30 |-> 49], <<45>> \o [j \in 1..30 |-> 56] >>
HugeTexts == Huge \o [j \in 1..Len(Huge) |-> <<46, 46>> \o Huge[j]] \o [j \in 1..Len(Huge) |-> <<49, 46, 46>> \o Huge[j]] \o [j \in 1..Len(Huge) |-> Huge[j] \o <<46, 46, 45, 49>>]
             \o << Huge[1] \o <<46, 46>> \o Huge[1], Huge[1] \o <<46, 46>> \o Huge[7], Huge[3] \o <<46, 46, 43, 49>>, Huge[6] \o <<46, 46>> \o Huge[6] >>
OffsetTexts == HugeTexts \o Offsets \o [j \in 1..(Len(Offsets) * Len(Offsets)) |-> Offsets[((j - 1) % Len(Offsets)) + 1] \o <<46, 46>> \o Offsets[((j - 1) \div Len(Offsets)) + 1]]
AfterSome == <<Lay(Plain("Program"), <<EqA>>, <<>>), Lay(Plain("Program"), <<EqA>>, <<EqB>>), Lay(Plain("Program"), <<>>, <<EqA>>)>>

-----------------------------------------------------------------------------
(* Long texts, long lists and deep grammars                                  *)
Times(x, n) == [j \in 1..n |-> x]
Twice(x, y, n) == [j \in 1..(2 * n) |-> IF j % 2 = 1 THEN x ELSE y]
ListOver(nd, kids) == kids \o << [nd EXCEPT !.ch = [j \in 1..Len(kids) |-> j]] >>
\* nds: from the inside out
Nested(leaf, nds) == <<leaf>> \o [j \in 1..Len(nds) |-> [nds[j] EXCEPT !.ch = <<j>>]]
Around(tab, nd) == Append(tab, [nd EXCEPT !.ch = <<Len(tab)>>])
\* one of 40 letters
Letter(j) == <<47 + j>>
Letters(n) == [j \in 1..n |-> 47 + j]
Long(tables, inputs) == [Base EXCEPT !.tables = tables, !.len = 0, !.inputs = inputs, !.chunk = 1]
LongAs == <<Times(97, 39), Times(97, 40), Times(97, 41), Times(97, 39) \o B1, Times(97, 130), Times(97, 257), Times(97, 300) \o B1>>
LongABs == <<Twice(97, 98, 33), Twice(97, 98, 70) \o A1, Twice(97, 98, 130)>>
Deep(nd, n) == Nested(Eq(A1), Times(nd, n))
DeepMixed(n) == Nested(Eq(A1), [j \in 1..n |-> CASE j % 5 = 0 -> Plain("Program") [] j % 5 = 1 -> Plain("Optional") [] j % 5 = 2 -> Plain("Flatten")
                                                [] j % 5 = 3 -> LoopOf(1, 2) [] OTHER -> Named("Switch", "S")])

\* Marks that are written, or fetched from a text, a token or (which is an error) a pattern
Parts == <<Str(B1), Str(A1), Var("v", ""), Var("t", "captured_value"), Var("t", "matched_value"), Var("m", "")>>
PartOf(j) == Parts[(j % 6) + 1]
MarksOf(j) == Nd("Sequence", "Sequence", FALSE) @@ [st |-> PartOf(j), en |-> PartOf(j \div 6), es |-> IF j \div 36 = 6 THEN Str(<<>>) ELSE PartOf(j \div 36)]
MarksAfter(j) == <<Seqn(Slash, Slash, <<>>), Eq(A1), [Plain("Switch") EXCEPT !.ch = <<1, 2>>], [StoreAs("t") EXCEPT !.ch = <<3>>], MarksOf(j), [Plain("Program") EXCEPT !.ch = <<4, 5>>]>>

\* Errors in front of and behind the end of what is discarded
ErrAt(offset) == <<WithMsg("Error", Bad), [PinAt(offset) EXCEPT !.ch = <<1>>]>>
Erring == <<Err1, ErrAt(<<43, 50>>), ErrAt(<<48>>), ErrAt(<<45, 49>>), ErrAt(<<43, 49, 46, 46, 43, 49>>), << Eq(A1) >>, << AStar >>, <<PinAt(<<48>>)>>, <<PinAt(<<43, 50>>)>> >>
ErringIn(nd) == [j \in 1..81 |-> Lay(nd, << Erring[((j - 1) % 9) + 1] >>, << Erring[((j - 1) \div 9) + 1] >>)]

-----------------------------------------------------------------------------
(* Edits: names, children, more children; also twice, and undone             *)
Rename(i, s) == [op |-> "name", i |-> i, s |-> s, x |-> 0, j |-> 0]
Replace(i, x, j) == [op |-> "child", i |-> i, s |-> "", x |-> x, j |-> j]
Extend(i, j) == [op |-> "add", i |-> i, s |-> "", x |-> 0, j |-> j]
\* 1: A, 2: X(AB), 3: B, 4: a program around 3, 5: a choice of 3 and 1, 6: nothing
Spare == <<Eq(A1), EqN("X", AB), Eq(B1), [Named("Program", "W") EXCEPT !.ch = <<3>>], [Plain("Switch") EXCEPT !.ch = <<3, 1>>], Plain("Null")>>
Edits == << << <<Rename(0, "R")>>, <<Rename(0, "Program")>> >>,
            << <<Rename(-1, "N")>>, <<Rename(-1, "Equals")>> >>,
            << <<Rename(-2, "M")>>, <<Rename(-1, "N")>>, <<Rename(-2, "P")>> >>,
            << <<Replace(-2, 0, 3)>>, <<Replace(-2, 0, -1)>> >>,
            << <<Replace(-2, 0, 4)>>, <<Replace(4, 0, 1)>>, <<Replace(-2, 0, 5)>> >>,
            << <<Replace(-2, 1, 2)>>, <<Replace(-2, 1, 5), Extend(5, 2)>> >>,
            << <<Extend(0, 1)>>, <<Extend(0, 3)>>, <<Replace(0, 1, 2)>> >>,
            << <<Extend(-2, 3)>>, <<Extend(-2, 1)>>, <<Replace(-2, 0, 3), Extend(-2, 2)>> >>,
            << <<Replace(0, 0, 2)>>, <<Replace(0, 1, 5)>>, <<Rename(0, "R"), Extend(0, -1)>> >>,
            << <<Replace(0, 0, -1)>>, <<Rename(-1, "N")>>, <<Replace(0, 0, 6)>> >>,
            << <<Rename(2, "Y"), Extend(-2, 2)>>, <<Rename(2, "X")>> >>,
            << <<Extend(0, 4), Extend(4, 1), Rename(4, "V")>>, <<Rename(3, "b"), Replace(4, 0, 5)>> >>,
            << <<Replace(-2, 0, 6)>>, <<Extend(-2, 6), Extend(0, 6)>>, <<Replace(-2, 0, 2)>> >>,
            << <<Rename(-2, "")>>, <<Rename(-1, "P")>>, <<Rename(0, "L")>> >> >>
WithEdits(G) == [G EXCEPT !.extra = Spare, !.edits = Edits, !.len = 0, !.inputs = << A1, AB, <<97, 98, 97, 98>>, <<98, 97>> >>, !.chunk = 4]

Family(f) ==
  CASE f = "C01" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), AStar>>,
          !.ops = <<Optional1, Discard1, Prg(2)>>, !.roots = Pick(<<Prg(1), Prg(2)>>, <<Prg(1), Prg(2), Prg(3)>>),
          !.around = Pick(None1, << << <<>>, <<>> >>, <<B1, A1>> >>)]
    [] f = "C01n" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), Plain("Null")>>,
          !.ops = <<Prg(1), Prg(2)>>, !.roots = <<Op(Named("Program", "P"), 3)>>, !.len = Pick(3, 4)]
    [] f = "C02" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), AStar, Plain("Null")>>,
          !.ops = <<Prg(2), Optional1, Discard1>>,
          !.roots = Pick(<<Swi(2)>>, <<Swi(1), Swi(2), Swi(3)>>)]
    [] f = "C02p" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), Eq(B1)>>,
          !.ops = <<Swi(2), Swi(3), Op(Plain("Not"), 1)>>, !.roots = <<Prg(2)>>, !.len = Pick(2, 4)]
    [] f = "C03" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), BOpt>>,
          !.ops = <<Optional1, Prg(2)>>,
          !.roots = <<Loop1(0, -1), Loop1(2, -1), Loop1(0, 2), Loop1(1, 2), Loop1(3, 3), Loop1(0, 0),
                      Loop2(0, -1), Loop2(1, 2), Loop2(2, 3)>>, !.len = Pick(3, 5)]
    [] f = "C03n" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1)>>,
          !.ops = <<Loop1(0, -1), Loop1(2, -1), Loop1(1, 2), Loop1(0, 1), Prg(2)>>,
          !.roots = <<Prg(2), Loop2(1, -1)>>, !.len = Pick(4, 6)]
    [] f = "C04" ->
       [Base EXCEPT !.leaves = <<Eq(A1), AStar, Plain("Null"), BOpt>>,
          !.ops = <<Optional1, Not1, Loop1(0, -1), Loop1(2, -1), Prg(2)>>,
          !.roots = <<Loop1(0, -1), Loop1(2, -1), Loop2(1, -1)>>, !.len = Pick(2, 4)]
    [] f = "C05" ->
       [Base EXCEPT !.leaves = <<Eq(A1), BreakTo(""), BreakTo("L"), EmitLoop("cont", "L", Payload("tok", 1)),
                                 EmitLoop("brk", "L", Payload("tok", 1)), EmitLoop("cont", "", Payload("none", 0))>>,
          !.ops = <<Swi(2), Op(Named("Program", "L"), 2), Op(LoopN("M", 0, -1), 2)>>,
          !.roots = <<Op(LoopN("L", 0, -1), 2), Op(LoopN("L", 0, 2), 2)>>, !.len = 2, !.inputs = << <<97, 97, 97>>, <<97, 98, 97, 98>> >>,
          !.chunk = 9]
    [] f = "C06" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(AB), EqN("X", <<97, 98, 97>>), Eq(<<>>),
                                 Re(<< <<Set(a, b, 1, -1, FALSE, TRUE), Item(b, 1, 1)>> >>),
                                 Re(<< <<Item(a, 1, 1)>>, <<Set(a, b, 2, 2, FALSE, FALSE)>> >>),
                                 Re(<< <<Set(a, a, 1, 2, TRUE, FALSE)>> >>),
                                 Re(<< <<BolI, Item(b, 1, 1)>>, <<Item(a, 1, -1), EolI>> >>),
                                 ReN("Y", << <<Item(a, 0, 1), Item(b, 1, 1)>> >>),
                                 Re(<< <<Set(a, b, 1, 2, FALSE, FALSE), Item(a, 1, 1)>> >>)>>,
          !.ops = <<>>, !.roots = Pick(<<Prg(1), Op(Plain("Program"), 2)>>, <<Prg(1), Prg(2), Swi(2), Loop1(1, -1)>>),
          !.depth = 0, !.len = Pick(3, 5), !.around = Surroundings, !.chunk = 20]
    [] f = "C07" ->
       [Base EXCEPT !.leaves = <<Seqn(Quote, Quote, Slash), Seqn(Quote, Quote, <<>>), Seqn(Quote, Paren, Slash),
                                 Seqn(Quote, Quote, Quote), Seqn(Quote, <<41, 41>>, Slash), Seqn(Quote, Paren, <<92, 92>>),
                                 Seqn(<<34, 92>>, Quote, Slash), Seqn(EAcute, Quote, Slash), Seqn(Quote, EAcute, Slash)>>,
          !.roots = <<Prg(1)>>, !.depth = 0, !.chars = <<Quote, Slash, Paren, EAcute>>, !.len = Pick(4, 6),
          !.around = Pick(<< << <<>>, <<>> >>, << <<>>, Paren>> >>, << << <<>>, <<>> >>, <<Quote, Paren>>, <<Slash, Quote>> >>)]
    [] f = "C08" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), AStar, Plain("Null")>>,
          !.ops = <<Optional1, Not1>>, !.roots = <<Prg(2)>>, !.depth = Pick(1, 3), !.len = Pick(3, 4)]
    [] f = "C08s" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB)>>,
          !.ops = <<Optional1, Not1, Discard1, Swi(2), Prg(2)>>, !.roots = Pick(<<Prg(2)>>, <<Prg(2), Prg(3)>>), !.len = 3]
    [] f = "C09" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), AStar>>,
          !.ops = <<Discard1, Prg(2), Flatten1>>, !.roots = <<Prg(2), Op(Plain("Discard"), 1), Op(Plain("Loop") @@ [min |-> 1, max |-> -1], 1)>>,
          !.len = Pick(3, 5)]
    [] f = "C09e" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Error", Bad), Eq(B1)>>,
          !.ops = Pick(<<Prg(2), Un(WithMsg("AssertIf", No2))>>, <<Prg(2), Prg(3), Un(WithMsg("AssertIf", No2))>>),
          !.roots = <<Op(Plain("Discard"), 1)>>, !.depth = 2, !.len = Pick(2, 3)]
    [] f = "C10" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), Seqn(B1, B1, <<>>)>>,
          !.ops = <<Flatten1, Expand1, Prg(2), Discard1>>, !.roots = Pick(<<Prg(1), Prg(2)>>, <<Prg(1), Prg(2), Prg(3)>>),
          !.len = Pick(3, 4)]
    [] f = "C10n" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Seqn(A1, B1, <<>>)>>,
          !.ops = <<Flatten1, Expand1, Prg(2), Loop1(1, -1), Swi(2)>>, !.roots = <<Prg(1)>>, !.depth = Pick(2, 2),
          !.len = Pick(3, 4)]
    [] f = "C11" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), PinAt(<<>>), PinAt(<<49, 46, 46, 50>>), PinAt(<<45, 49>>)>>,
          !.ops = <<Un(PinAt(<<48>>)), Un(PinAt(<<43, 49>>)), Un(PinAt(<<45, 49>>)), Un(PinAt(<<49, 46, 46, 50>>)),
                    Un(PinAt(<<43, 48, 46, 46, 43, 49>>)), Un(PinAt(<<50>>)), Un(PinAt(<<57>>)), Un(PinAt(<<46, 46, 43, 49>>))>>,
          !.roots = Pick(<<Prg(2)>>, <<Prg(2), Prg(3)>>), !.len = 3]
    [] f = "C12" ->
       [Base EXCEPT !.leaves = <<Eq(A1), AStar, EqVar("v", ""), EqVar("v", "captured_value"), StoreText("v", B1)>>,
          !.ops = <<Un(StoreAs("v")), Prg(2)>>, !.roots = Pick(<<Prg(2)>>, <<Prg(2), Prg(3)>>), !.len = Pick(3, 4),
          !.watch = <<"v">>, !.main = <<BindS("v", A1)>>, !.chunk = 4]
    [] f = "C12p" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Seqn(B1, A1, <<>>), PinVar("v", "start"), PinVar("v", "range"), EqVar("v", "matched_value"),
                                 PinVar("v", "captured_range")>>,
          !.ops = <<Un(StoreAs("v"))>>, !.roots = <<Prg(2), Prg(3)>>, !.len = 3, !.watch = <<"v">>,
          !.main = <<BindS("v", A1)>>, !.chunk = 4]
    [] f = "C13" ->
       [Base EXCEPT !.extra = << EqN("A", A1), [RefTo("A") EXCEPT !.ch = <<>>], [Plain("Optional") EXCEPT !.ch = <<4>>], RefTo("B"),
                                 [Named("Program", "B") EXCEPT !.ch = <<6, 2, 3>>], Eq(B1) >>,
          !.leaves = <<RefTo("A"), RefTo("B"), EqN("A", B1), RefDirect(5), RefTo("R")>>,
          !.ops = <<[Op(Plain("Register"), 1) EXCEPT !.nd = Plain("Register") @@ [via |-> 0]], Prg(2), Optional1, Op(Named("Program", "R"), 2)>>,
          !.roots = <<Prg(2)>>, !.main = <<[BindM("A", 1) EXCEPT !.reg = TRUE], BindM("B", 5)>>, !.watch = <<"A", "R">>,
          !.len = Pick(2, 3), !.inputs = << <<98, 97, 98, 97>> >>, !.chunk = 8]
    [] f = "C14" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqVar("v", ""), StoreText("v", A1), StoreText("v", B1)>>,
          !.ops = <<Un(Scoped(0)), Un(Scoped(1)), Prg(2)>>, !.roots = Pick(<<Prg(3)>>, <<Prg(2), Prg(3)>>),
          !.depth = 1, !.main = <<BindS("v", B1)>>, !.scopes = << << <<BindS("v", A1)>> >> >>, !.watch = <<"v">>,
          !.len = Pick(1, 3), !.inputs = Pick(<<AB, <<98, 97>>, <<97, 97>> >>, <<>>), !.chunk = 3]
    [] f = "C14r" ->
       [Base EXCEPT !.extra = <<EqN("A", A1), EqN("A", B1)>>,
          !.leaves = <<RefTo("A"), EqN("A", AB), Eq(A1)>>,
          !.ops = <<Un(Scoped(0)), Un(Scoped(1)), Prg(2), Optional1>>, !.roots = <<Prg(2)>>,
          !.main = <<BindM("A", 1)>>, !.scopes = << << <<BindM("A", 2)>> >> >>, !.watch = <<"A">>, !.len = Pick(2, 3), !.chunk = 8]
    [] f = "C15" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), WithMsg("Panic", Bad)>>,
          !.ops = <<Un(WithMsg("FatalIf", No2)), Un(WithMsg("FatalIfNot", No2)), Optional1, Swi(2), Prg(2)>>,
          !.roots = Pick(<<Prg(2)>>, <<Prg(2), Prg(3), Swi(2), Loop2(0, -1)>>), !.len = 2, !.file = <<102>>]
    [] f = "C15c" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Panic", Bad)>>,
          !.ops = <<Un(CatchOf("skip0", Bad)), Un(CatchOf("only", Bad)), Un(CatchOf("err", No2)), Not1, Discard1, Flatten1,
                    Un(StoreAs("v")), Loop1(0, -1), Expand1>>,
          !.roots = <<Prg(2)>>, !.len = 2, !.depth = Pick(1, 2), !.chars = <<A1, <<10>> >>]
    [] f = "C16" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Error", Bad)>>,
          !.ops = <<Un(WithMsg("AssertIf", No2)), Un(WithMsg("AssertIfNot", No2)), Discard1, Flatten1, Prg(2), Swi(2)>>,
          !.roots = Pick(<<Prg(2)>>, <<Prg(2), Prg(3), Loop2(1, 2)>>), !.len = 2]
    [] f = "C16d" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Error", Bad)>>,
          !.ops = <<Prg(2), Optional1>>, !.roots = <<Prg(2)>>, !.depth = 2, !.len = Pick(2, 3)]
    [] f = "C17" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Seqn(B1, B1, A1), AStar, Plain("Null")>>,
          !.ops = <<Prg(2), Discard1, Flatten1, Loop1(1, -1)>>, !.roots = <<Prg(2)>>, !.len = Pick(3, 4),
          !.around = Pick(None1, << << <<>>, <<>> >>, <<A1, B1>> >>)]
    [] f = "C17e" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Seqn(B1, B1, <<>>)>>,
          !.ops = <<Prg(2), Expand1, Flatten1, Discard1>>, !.roots = <<Prg(1)>>, !.depth = 2, !.len = Pick(3, 4),
          !.around = << <<A1, <<>> >> >>]
    [] f = "C18" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Panic", Bad)>>,
          !.ops = <<Un(MapOf("tok", "", <<>>, "none", <<>>)), Un(MapOf("name", "N", <<>>, "skip0", <<>>)),
                    Un(MapOf("attr", "N", A1, "pass", <<>>)), Un(MapOf("fail", "", <<>>, "errtok", Bad)),
                    Un(MapOf("skip", "", <<>>, "err", Bad)), Un(CatchOf("skip0", <<>>)), Un(CatchOf("errtok", Bad)),
                    Un(MapOf("prox", "", <<>>, "only", <<>>)), Un(MapOf("err", "", Bad, "fail", <<>>)),
                    Un(MapOf("val", "", A1, "none", <<>>)), Un(MapOf("own", "N", <<>>, "errat", Bad)), Un(MapOf("warn", "", No2, "pass", <<>>)), Optional1, Prg(2), Swi(2)>>,
          !.roots = <<Prg(1), Prg(2)>>, !.depth = 1, !.len = Pick(2, 3)]
    [] f = "C18d" ->
       [Base EXCEPT !.leaves = <<Eq(A1)>>,
          !.ops = <<Un(MapOf("name", "N", <<>>, "none", <<>>)), Un(MapOf("attr", "N", A1, "pass", <<>>)),
                    Un(MapOf("attr", "N", B1, "none", <<>>)), Un(MapOf("fail", "", <<>>, "only", Bad)),
                    Un(MapOf("cont", "Loop", <<>>, "none", <<>>)), Un(MapOf("brk", "", <<>>, "none", <<>>)), Un(CatchOf("fail", <<>>))>>,
          !.roots = <<Prg(1), Loop1(1, -1)>>, !.depth = 2, !.len = 2]
    \* functions that set and look at variables
    [] f = "C18v" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), StoreText("v", A1)>>,
          !.ops = <<Un(MapOf("put", "v", <<>>, "none", <<>>)), Un(MapOf("see", "v", <<>>, "note", Bad)), Un(MapOf("put", "w", <<>>, "note", No2)),
                    Un(Scoped(0)), Un(Scoped(1)), Prg(2), Optional1>>,
          !.roots = <<Prg(2)>>, !.depth = 2, !.main = <<BindS("v", B1)>>, !.scopes = << << <<BindS("v", A1)>> >> >>,
          !.watch = <<"v", "w">>, !.inputs = <<AB, <<97, 97>> >>, !.len = 1, !.chunk = 5]
    [] f = "C19" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), Plain("Null"), Re(<< <<Item(98, 1, -1)>> >>), DebugOf(0)>>,
          !.ops = <<Un(DebugOf(0)), Un(DebugOf(1)), Un(DebugOf(2)), Un(DebugOf(3)), Prg(2), Not1, Optional1>>,
          !.roots = Pick(<<Prg(2), Op(DebugOf(1), 1)>>, <<Prg(2), Swi(2), Loop2(0, -1), Op(DebugOf(1), 1), Op(DebugOf(2), 1)>>), !.len = Pick(2, 3),
          !.again = "undebugged"]
    [] f = "C19e" ->
       [Base EXCEPT !.leaves = <<Eq(A1), WithMsg("Panic", Bad), WithMsg("Error", Bad), BreakTo("")>>,
          !.ops = <<Un(DebugOf(0)), Un(DebugOf(1)), Un(DebugOf(2)), Flatten1, Discard1>>,
          !.roots = <<Loop2(0, -1)>>, !.depth = Pick(1, 2), !.len = 2, !.inputs = <<EAcute>>, !.again = "undebugged"]
    [] f = "C19p" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), Plain("Null"), PinAt(<<>>), DebugOf(1), StoreText("v", A1)>>,
          !.ops = <<Un(DebugOf(1)), Un(PinAt(<<>>)), Un(PinAt(<<43, 49>>)), Un(PinAt(<<48, 46, 46, 49>>)), Un(MapOf("tok", "", <<>>, "none", <<>>)), Flatten1>>,
          !.roots = <<Prg(2), Loop2(0, 2)>>, !.depth = 2, !.len = 2, !.inputs = <<<<97, 97, 98>>>>, !.again = "undebugged"]
    [] f = "C29" ->
       [Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), EqVar("v", "")>>,
          !.ops = <<Un(StoreAs("v")), Optional1, Prg(2), Loop1(1, -1)>>, !.roots = <<Prg(2)>>,
          !.len = 2, !.main = <<BindS("v", A1)>>, !.watch = <<"v", "X">>, !.again = "fresh", !.chunk = 7]
    [] f = "C29k" ->
       [Base EXCEPT !.leaves = <<Eq(A1), Eq(B1), WithMsg("Error", Bad), WithMsg("Panic", Bad)>>,
          !.ops = <<Optional1, Prg(2), Un(Scoped(0)), Swi(2)>>, !.roots = <<Prg(2)>>,
          !.len = 2, !.again = "keep", !.chunk = 7]
    [] f = "C30" ->
       [Base EXCEPT !.leaves = <<Eq(EAcute), Eq(Euro), Re(<< <<Set(128, 65535, 1, 2, FALSE, FALSE)>> >>),
                                 Re(<< <<Set(97, 97, 1, 1, TRUE, FALSE)>> >>), Seqn(EAcute, Euro, Smile), Seqn(Smile, Smile, EAcute)>>,
          !.ops = <<Optional1, Not1, Un(Plain("Debug") @@ [mode |-> 1])>>, !.roots = Pick(<<Prg(2)>>, <<Prg(2), Loop2(0, -1), Swi(2)>>),
          !.chars = <<EAcute, Euro, Smile>>, !.len = Pick(2, 4),
          !.inputs = << <<226, 130, 172, 97, 195, 169>>, <<195, 169, 240, 159, 152, 128, 97, 226, 130, 172>> >>,
          !.around = << << <<>>, <<>> >>, <<EAcute, Smile>> >>]
    [] f = "C30e" ->
       [Base EXCEPT !.leaves = <<Eq(EAcute), Eq(Smile), WithMsg("Panic", EAcute), WithMsg("Error", Euro)>>,
          !.ops = <<Un(WithMsg("AssertIf", No2)), Un(WithMsg("FatalIfNot", Smile)), Prg(2), Discard1>>, !.roots = <<Prg(2)>>,
          !.chars = <<EAcute, Smile, <<10>> >>, !.len = Pick(2, 3), !.file = EAcute]
    [] f = "C01x" -> Outside(Lists)
    [] f = "C01y" -> Inside(Lists)
    [] f = "C02x" -> Outside(Choices)
    [] f = "C02y" -> Inside(Choices)
    [] f = "C03x" -> Outside(Repeats)
    [] f = "C03y" -> Inside(Repeats)
    [] f = "C05x" -> Crossed(<<InLoops, Wraps, Wraps>>, Jumps)
    [] f = "C08x" -> Outside(Nots)
    [] f = "C08y" -> Inside(Nots)
    [] f = "C09x" -> Outside(Drops)
    [] f = "C09y" -> Inside(Drops)
    [] f = "C10x" -> Outside(Flats)
    [] f = "C10y" -> Inside(Flats)
    [] f = "C11x" -> Outside(Pins)
    [] f = "C11y" -> Inside(Pins)
    [] f = "C12x" -> Outside(Stores)
    [] f = "C12y" -> Inside(Stores)
    [] f = "C01l" -> Long(<<ListOver(Plain("Program"), Times(Eq(A1), 40)), ListOver(Plain("Program"), Append(Times(Eq(A1), 39), Eq(B1))),
                            ListOver(Plain("Program"), Times(Eq(A1), 130)), ListOver(Plain("Program"), Times(Eq(A1), 257)),
                            ListOver(Plain("Program"), Append(Times(Plain("Null"), 40), Eq(A1))), Deep(Plain("Program"), 60), Deep(Named("Program", "P"), 30)>>, LongAs)
    [] f = "C02l" -> Long(<<Around(ListOver(Plain("Switch"), [j \in 1..40 |-> Eq(Letter(j))]), LoopOf(0, -1)),
                            Around(ListOver(Plain("Switch"), Append(Times(Eq(B1), 260), AStar)), Plain("Program")), Deep(Plain("Switch"), 60)>>,
                          <<Letters(40), Letters(40) \o Letters(40), Letters(41), [j \in 1..40 |-> 88 - j], A1, Times(98, 4) \o A1, Letters(3) \o A1, Letter(40)>>)
    [] f = "C03l" -> Long(<<Around(<<Eq(A1)>>, LoopOf(0, -1)), Around(<<Eq(A1)>>, LoopOf(40, 40)), Around(<<Eq(A1)>>, LoopOf(41, -1)), Around(<<Eq(A1)>>, LoopOf(0, 256)),
                            Around(<<Eq(A1)>>, LoopOf(257, 257)), Around(<<Eq(A1)>>, LoopOf(256, 299)), Around(<<Eq(A1)>>, LoopOf(2, 130)),
                            ListOver(LoopOf(1, -1), <<Eq(A1), Eq(B1)>>), Around(<<Eq(AB)>>, LoopOf(0, -1)), Deep(LoopOf(1, 2), 40)>>, SubSeq(LongAs, 1, 4) \o SubSeq(LongABs, 1, 1))
    [] f = "C03m" -> Long(<<Around(<<Eq(A1)>>, LoopOf(0, -1)), Around(<<Eq(A1)>>, LoopOf(130, 257))>>, SubSeq(LongAs, 5, 6))
    [] f = "C06l" -> Long(<<Around(<<Eq(Times(97, 40))>>, Plain("Program")), Around(<<Eq(Times(97, 257))>>, Plain("Program")), Around(<<AStar>>, Plain("Program")),
                            Around(<<Re(<< <<Item(97, 2, 39)>> >>)>>, LoopOf(1, -1)), Around(<<Re(<< <<Item(97, 40, 40), Item(98, 0, 1)>> >>)>>, LoopOf(1, -1)),
                            ListOver(Plain("Program"), <<AStar, Eq(B1)>>), ListOver(Plain("Switch"), <<Eq(Times(97, 258)), Eq(Times(97, 256)), Eq(Times(97, 41))>>)>>, LongAs)
    [] f = "C07l" -> Long(<<Around(<<Seqn(B1, B1, Slash)>>, Plain("Program")), Around(<<Seqn(B1, B1, B1)>>, Plain("Program")), Around(<<Seqn(B1, AB \o AB, <<>>)>>, Plain("Program")),
                            Around(<<Seqn(<<97>>, B1, Slash)>>, LoopOf(1, -1))>>,
                          <<B1 \o Times(97, 257) \o B1, B1 \o Twice(92, 98, 40) \o B1, Times(98, 41), Times(98, 42), B1 \o Times(92, 41) \o B1, B1 \o Times(92, 40) \o B1,
                            B1 \o Twice(97, 98, 130), A1 \o Twice(92, 97, 65) \o B1, LongABs[1], LongABs[2]>>)
    [] f = "C13l" -> [Long(<< <<RefTo("P"), [Plain("Optional") EXCEPT !.ch = <<1>>], Eq(A1), Eq(B1), [Named("Program", "P") EXCEPT !.ch = <<3, 2, 4>>], [Plain("Program") EXCEPT !.ch = <<5>>]>>,
                             << RefTo("P"), Eq(A1), [Plain("Program") EXCEPT !.ch = <<2, 1>>], Eq(B1), [Named("Switch", "P") EXCEPT !.ch = <<3, 4>>], [Plain("Program") EXCEPT !.ch = <<5>>]>> >>,
                           <<Times(97, 12) \o Times(98, 12), Times(97, 12) \o Times(98, 11), Times(97, 17) \o B1, Times(97, 15) \o Times(98, 16), Times(97, 16)>>) EXCEPT !.watch = <<"P">>]
    [] f = "C16l" -> Long(<<ListOver(Plain("Program"), Twice(Eq(A1), WithMsg("Error", Bad), 40)), Around(ListOver(Plain("Program"), <<Eq(A1), WithMsg("Error", Bad)>>), LoopOf(1, -1)),
                            Nested(WithMsg("Error", Bad), Times(Plain("Program"), 30))>>, <<Times(97, 40), Times(97, 41), Times(97, 60)>>)
    [] f = "C17l" -> Long([j \in 1..4 |-> DeepMixed(<<15, 30, 47, 60>>[j])] \o <<Deep(Plain("Discard"), 30), Around(DeepMixed(12), LoopOf(1, -1))>>, <<A1, Times(97, 20), Times(97, 70)>>)
    [] f = "C11l" -> [Crossed(<<AfterSome, [j \in 1..Len(OffsetTexts) |-> One(PinAt(OffsetTexts[j]))]>>, <<Eq(A1), AStar, Eq(AB)>>)
                      EXCEPT !.inputs = << AB, <<97, 97, 98>>, <<97, 98, 97, 98>>, <<97, 97, 97, 98, 97>> >>, !.around = << None1[1], <<B1, A1>> >>, !.chunk = 8]
    [] f = "C11n" -> [Crossed(<<AfterSome, <<One(Plain("Optional")), One(Plain("Flatten"))>> >>, [j \in 1..Len(OffsetTexts) |-> PinAt(OffsetTexts[j])])
                      EXCEPT !.inputs = << AB, <<97, 97, 98>>, <<97, 98, 97, 98>>, <<97, 97, 97, 98, 97>> >>, !.around = << None1[1], <<B1, A1>> >>, !.chunk = 8]
    [] f = "C12v" -> [Crossed(<<AfterKeeping, <<Lay(Plain("Program"), <<>>, <<EqB>>)>> \o Nots \o Choices \o Repeats \o Drops \o Stores \o ScopesX>>, Asking)
                      EXCEPT !.inputs = Tells, !.chunk = 5]
    [] f = "C12w" -> [Crossed(<<AfterKeeping, PinVars, Lists \o Choices \o Repeats \o Nots \o Stores>>, <<Eq(A1), AStar, EqVar("v", "matched_value"), EqVar("v", "captured_value"), Plain("Null")>>)
                      EXCEPT !.inputs = SubSeq(Tells, 1, 10), !.chunk = 5]
    [] f = "C13x" -> [Crossed(<<Around1, Wraps \o <<One(Plain("Register"))>>, Wraps>>,
                              <<RefTo("A"), RefTo("none"), RefTo("v"), RefVar("w"), RefVar("v"), RefDirect(1), RefDirect(2), RefTo("P")>>)
                      EXCEPT !.extra = <<EqN("A", A1), EqN("B", AB)>>, !.main = <<BindM("A", 1), BindS("v", B1), BindS("w", <<65>>)>>, !.nt = << << <<65>>, "A" >> >>, !.watch = <<"v", "A", "P">>]
    [] f = "C04x" -> Crossed(<<Repeats \o <<One(LoopOf(0, 3)), One(LoopOf(3, 3))>>, Wraps, Wraps>>,
                             <<Plain("Null"), AStar, Emitting("skip", 0), Emitting("skip", -1), PinAt(<<>>), EmitLoop("cont", "", Payload("none", 0)), StoreText("v", A1), Eq(<<>>)>>)
    [] f = "C06x" -> [Crossed(<<Around1, Wraps, Wraps>>,
                              <<Eq(AB), Eq(<<>>), Re(<< <<Set(a, b, 1, -1, FALSE, TRUE), Item(b, 1, 1)>> >>), Re(<< <<BolI, Item(b, 1, 1)>>, <<Item(a, 1, -1), EolI>> >>),
                                ReN("Y", << <<Item(a, 0, 1), Item(b, 1, 1)>> >>)>>) EXCEPT !.around = <<<<B1, A1>>, << <<>>, B1>> >>]
    [] f = "C07x" -> [Crossed(<<Around1, Wraps, Wraps>>, <<Seqn(A1, B1, <<>>), Seqn(A1, A1, B1), Named("Sequence", "Q") @@ [st |-> Str(B1), en |-> Str(A1), es |-> Str(B1)]>>)
                      EXCEPT !.around = <<None1[1], << <<>>, AB>> >>]
    [] f = "C17x" -> [Crossed(<<Lists, Wraps, Wraps>>, Leaves) EXCEPT !.around = << <<B1, <<>>>> >>]
    [] f = "C29x" -> [Crossed(<<Around1, Wraps, Wraps>>, Leaves) EXCEPT !.again = "keep", !.inputs = SubSeq(Short, 4, 7), !.chunk = 4]
    [] f = "C31" -> WithEdits([Base EXCEPT !.leaves = <<Eq(A1), EqN("X", AB), AStar, Seqn(A1, B1, <<>>)>>,
                                !.ops = <<Prg(2), Swi(2), Loop1(0, 2), Optional1, Not1, Discard1, Flatten1>>, !.roots = <<Prg(2), Swi(2), Loop2(1, 2), Optional1, Flatten1>>])
    [] f = "C07v" -> [Base EXCEPT !.tables = [j \in 1..252 |-> MarksAfter(j - 1)], !.len = 0, !.chunk = 14, !.main = <<BindS("v", B1), BindM("m", 2)>>, !.watch = <<"t">>,
                        !.inputs = << A1, <<97, 97>>, <<97, 97, 97>>, <<97, 97, 98>>, <<97, 98, 98>>, <<97, 98, 97>>, <<97, 97, 98, 97, 98>>, <<97, 98, 97, 98, 98>>, <<97, 98, 98, 97, 98>>, <<97, 97, 98, 98, 97>>,
                                      <<92, 97, 92, 97, 98, 97>>, <<92, 98, 92, 98, 97, 98, 98>>, <<92, 97, 98, 92, 97, 98, 98, 97, 98>>, <<92, 98, 92, 92, 98, 92, 97, 92, 98, 92>> >>]
    [] f = "C09d" -> [Crossed(<<<<Lay(Plain("Program"), <<EqA>>, <<>>), Lay(Plain("Program"), <<>>, <<EqB>>), One(LoopOf(1, 2))>>, Drops, ErringIn(Plain("Program"))>>, <<Eq(A1), Eq(B1), AStar>>)
                      EXCEPT !.inputs = << A1, AB, <<97, 97, 98>>, <<97, 97, 98, 97, 98>> >>]
    [] f = "C15r" -> [Base EXCEPT !.tables = [j \in 1..Len(Leaves) |-> <<Leaves[j]>>] \o [j \in 1..Len(Wraps) |-> Append(<<WithMsg("Panic", Bad)>>, [Wraps[j].nd EXCEPT !.ch = <<1>>])],
                        !.inputs = << <<97, 10, 97>> >>, !.around = << None1[1], <<B1, A1>> >>, !.main = <<BindS("v", B1)>>, !.watch = <<"v">>]
    [] f = "C17r" -> [Crossed(<<Wraps, Wraps>>, Leaves) EXCEPT !.around = << None1[1], <<B1, B1>> >>]
    [] f = "C31x" -> WithEdits(Crossed(<<Around1, Wraps>>, Leaves))
    [] f = "C31y" -> WithEdits(Crossed(<<Around1, Wraps, Wraps>>, SubSeq(Leaves, 1, 6)))
    [] f = "C31r" -> [WithEdits(Crossed(<<Around1, <<One(Plain("Program")), One(Plain("Register"))>> \o Wraps>>, <<RefTo("A"), RefTo("W"), RefDirect(2), RefDirect(5)>>))
                      EXCEPT !.main = <<BindM("A", 1), [BindM("W", 4) EXCEPT !.reg = TRUE]>>, !.watch = <<"A", "W", "V", "X", "Y">>]
    [] f = "C30x" -> [Crossed(<<Around1, Wraps, Wraps>>,
                              <<Eq(EAcute), Re(<< <<Set(128, 65535, 1, 2, FALSE, FALSE)>> >>), Re(<< <<Set(97, 97, 1, 1, TRUE, FALSE)>> >>), Seqn(EAcute, Euro, Smile),
                                PinAt(<<43, 50, 46, 46, 43, 53>>), WithMsg("Error", EAcute), WithMsg("Panic", Euro)>>)
                      EXCEPT !.inputs = <<EAcute, <<97, 195, 169, 98>>, EAcute \o Euro, Euro \o EAcute \o Smile, EAcute \o Smile \o Euro \o Euro>>, !.chunk = 5]
    [] f = "C14x" -> Outside(ScopesX)
    [] f = "C14y" -> Inside(ScopesX)
    [] f = "C15x" -> Crossed(<<Around1, Wraps, Wraps>>, <<WithMsg("Panic", Bad), RefTo("none")>>)
    [] f = "C15y" -> Outside(Fatals)
    [] f = "C16x" -> Crossed(<<Around1, Wraps, Wraps>>, <<WithMsg("Error", Bad)>>)
    [] f = "C16y" -> Outside(Asserts)
    [] f = "C18x" -> Outside(Maps \o Catches)
    [] f = "C18y" -> Inside(Maps \o Catches)
    [] f = "C19x" -> [Outside(Debugs) EXCEPT !.again = "undebugged"]
    [] f = "C19y" -> [Inside(Debugs) EXCEPT !.again = "undebugged"]
=============================================================================
