-------------------------------- MODULE Text --------------------------------
(* Byte strings, UTF-8, source ranges, and line / column positions.          *)
(* A source is a sequence of bytes; offsets are byte offsets, 0 based, and a *)
(* range is [start, end).  Every operator here is part of the specification  *)
(* of what offsets, values and positions mean (properties C17, C20, C30).    *)
EXTENDS Integers, Sequences, FiniteSets

\* A range bound no offset can have ("nothing yet").
MAXPOS == 2000000000

\* The number of bytes of the character that starts with byte b
CharLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

IsContinuation(b) == b >= 128 /\ b < 192

\* Offset p is between two characters (or at either end) of src
IsBoundary(src, p) ==
  /\ p >= 0 /\ p <= Len(src)
  /\ p = Len(src) \/ ~IsContinuation(src[p + 1])

\* A window that can be read at all
IsWindow(src, lo, hi) == lo <= hi /\ IsBoundary(src, lo) /\ IsBoundary(src, hi)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* The text of a range: clamped to the source, empty if there is no such text
Slice(src, lo, hi) ==
  LET e == Min2(hi, Len(src)) IN
  IF lo < 0 \/ ~IsWindow(src, lo, e) THEN <<>> ELSE SubSeq(src, lo + 1, e)

\* The window src[lo..hi) starts with pat
StartsAt(src, lo, hi, pat) ==
  /\ lo + Len(pat) <= hi
  /\ \A k \in 1..Len(pat) : src[lo + k] = pat[k]

\* The code point at offset p of src
Decode(src, p) ==
  LET b == src[p + 1]
      c(k) == src[p + k] - 128
  IN CASE CharLen(b) = 1 -> b
       [] CharLen(b) = 2 -> (b - 192) * 64 + c(2)
       [] CharLen(b) = 3 -> (b - 224) * 4096 + c(2) * 64 + c(3)
       [] OTHER -> (b - 240) * 262144 + c(2) * 4096 + c(3) * 64 + c(4)

-----------------------------------------------------------------------------
(* Numbers as text *)
IsDigit(b) == b >= 48 /\ b <= 57

RECURSIVE NumberText(_)
NumberText(n) == IF n < 10 THEN <<48 + n>> ELSE NumberText(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE NumberValue(_)
NumberValue(t) ==
  IF t = <<>> THEN 0 ELSE NumberValue(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)

\* Only small numbers are judged (TLC integers are 32 bits)
IsNumber(t) == t # <<>> /\ Len(t) <= 9 /\ \A k \in 1..Len(t) : IsDigit(t[k])

\* A number beyond any place in a source
IsHuge(t) == Len(t) > 9 /\ t[1] # 48 /\ \A k \in 1..Len(t) : IsDigit(t[k])

-----------------------------------------------------------------------------
(* Lines and columns.  A line ends with "\r\n", "\n" or "\r".                *)
CR == 13
LF == 10

\* Offset p is the end of a line ending of src
IsLineEnd(src, p) ==
  /\ p > 0 /\ p <= Len(src)
  /\ \/ src[p] = LF
     \/ src[p] = CR /\ ~(p < Len(src) /\ src[p + 1] = LF)

\* The middle of a "\r\n" is not a position a user can point at
InsideCRLF(src, p) == p > 0 /\ p < Len(src) /\ src[p] = CR /\ src[p + 1] = LF

LineEnds(src, p) == {q \in 1..p : IsLineEnd(src, q)}

Line(src, p) == Cardinality(LineEnds(src, p)) + 1

LineStart(src, p) ==
  LET ends == LineEnds(src, p)
  IN IF ends = {} THEN 0 ELSE CHOOSE q \in ends : \A r \in ends : r <= q

\* Columns count bytes, from 1
Column(src, p) == p - LineStart(src, p) + 1

Lines(src, lo, hi) == <<Line(src, lo), Line(src, hi)>>

\* The last column is never before the first
Columns(src, lo, hi) ==
  LET a == Column(src, lo)
      b == Column(src, hi)
  IN <<a, Max2(a, b)>>

Span(pair) ==
  IF pair[1] = pair[2] THEN NumberText(pair[1])
  ELSE NumberText(pair[1]) \o <<45>> \o NumberText(pair[2])

\* "Error: " file "@[" lines ":" columns "]: " message
LocatedMessage(src, file, msg, lo, hi) ==
  <<69, 114, 114, 111, 114, 58, 32>> \o file \o <<64, 91>> \o Span(Lines(src, lo, hi))
    \o <<58>> \o Span(Columns(src, lo, hi)) \o <<93, 58, 32>> \o msg
=============================================================================
