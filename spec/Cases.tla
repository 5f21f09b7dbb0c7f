-------------------------------- MODULE Cases -------------------------------
(* Where the cases of the interface modules (Lines, Visits, Scopes, Tokens,  *)
(* Contexts) come from: every word over an alphabet of operations up to a    *)
(* length, or a file.                                                        *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

FromFile == IOEnv.CASES # ""
Big == IOEnv.BIG = "1"

\* Words over 1..n with lengths 1..l, numbered from 0
RECURSIVE WordCount(_, _)
WordCount(n, l) == IF l = 0 THEN 0 ELSE n + n * WordCount(n, l - 1)

RECURSIVE Word(_, _)
Word(n, i) ==
  IF i < n THEN <<i + 1>> ELSE Append(Word(n, (i - n) \div n), ((i - n) % n) + 1)

\* A part of a large number of cases: those that leave the rest PIECE modulo the stride
StrideOf(size) == (size + atoi(IOEnv.LIMIT) - 1) \div atoi(IOEnv.LIMIT)
PieceOffset(size) == atoi(IOEnv.PIECE) % StrideOf(size)
ChosenOf(size) == (size - 1 - PieceOffset(size)) \div StrideOf(size) + 1
IndexOf(size, k) == PieceOffset(size) + (k - 1) * StrideOf(size)

\* The same, in an order in which cases next to each other differ in everything (1000003 is prime)
RECURSIVE TimesModulo(_, _, _)
TimesModulo(x, y, m) ==
  IF y = 0 THEN 0
  ELSE LET h == TimesModulo(x, y \div 2, m) IN ((((h + h) % m) + (IF y % 2 = 1 THEN x ELSE 0)) % m)
ScatteredIndex(size, k) == TimesModulo(1000003 % size, IndexOf(size, k), size)

FileCases == IF FromFile THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>

Announce(size) ==
  IF FromFile THEN PrintT("@SIZE " \o ToString(Len(FileCases)) \o " 1 " \o ToString(Len(FileCases)))
  ELSE PrintT("@SIZE " \o ToString(size) \o " " \o ToString(StrideOf(size)) \o " " \o ToString(ChosenOf(size)))

Publish(c, want) == PrintT("@@" \o ToJson([c |-> c, want |-> want]))
=============================================================================
