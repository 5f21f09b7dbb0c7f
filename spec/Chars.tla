-------------------------------- MODULE Chars -------------------------------
(* Strings of the specification language as texts (sequences of bytes), and  *)
(* back: for printable ASCII.                                                *)
EXTENDS Integers, Sequences, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharOf == [b \in 32..126 |-> SubSeq(Printable, b - 31, b - 31)]
CodeOf == [c \in {CharOf[b] : b \in 32..126} |-> CHOOSE b \in 32..126 : CharOf[b] = c]

\* The text of a string
T(s) == [k \in 1..Len(s) |-> CodeOf[SubSeq(s, k, k)]]

IsPrintable(t) == \A k \in 1..Len(t) : t[k] >= 32 /\ t[k] <= 126

RECURSIVE StringOf(_)
StringOf(t) == IF t = <<>> THEN "" ELSE CharOf[t[1]] \o StringOf(Tail(t))
=============================================================================
