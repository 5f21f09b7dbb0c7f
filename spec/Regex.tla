-------------------------------- MODULE Regex -------------------------------
(* The regular expressions the cases use, as data, with leftmost-first       *)
(* (backtracking) semantics.  A pattern is a sequence of alternatives, an    *)
(* alternative a sequence of items                                           *)
(*   [t |-> "set", neg, rs |-> <<lo, hi>> pairs of code points, min, max,    *)
(*    lazy], [t |-> "bol"] or [t |-> "eol"]                                  *)
(* (max = -1: no bound).  The driver renders the very same data as the text  *)
(* that is given to the implementation.                                      *)
EXTENDS Text

InSet(item, c) ==
  LET hit == \E k \in 1..Len(item.rs) : item.rs[k][1] <= c /\ c <= item.rs[k][2]
  IN IF item.neg THEN ~hit ELSE hit

\* The end of the match of items k.. at p in the window lo..hi of src, or -1
RECURSIVE ItemsMatch(_, _, _, _, _, _)
RECURSIVE RepeatMatch(_, _, _, _, _, _, _)

ItemsMatch(src, lo, hi, items, k, p) ==
  IF k > Len(items) THEN p
  ELSE LET item == items[k] IN
    CASE item.t = "bol" -> IF p = lo THEN ItemsMatch(src, lo, hi, items, k + 1, p) ELSE -1
      [] item.t = "eol" -> IF p = hi THEN ItemsMatch(src, lo, hi, items, k + 1, p) ELSE -1
      [] OTHER -> RepeatMatch(src, lo, hi, items, k, p, 0)

\* n repeats of item k are matched up to p
RepeatMatch(src, lo, hi, items, k, p, n) ==
  LET item == items[k]
      canMore == /\ item.max = -1 \/ n < item.max
                 /\ p < hi
                 /\ InSet(item, Decode(src, p))
      more == IF canMore
              THEN RepeatMatch(src, lo, hi, items, k, p + CharLen(src[p + 1]), n + 1)
              ELSE -1
      rest == IF n >= item.min THEN ItemsMatch(src, lo, hi, items, k + 1, p) ELSE -1
  IN IF item.lazy
     THEN IF rest # -1 THEN rest ELSE more
     ELSE IF more # -1 THEN more ELSE rest

RECURSIVE AltsMatch(_, _, _, _, _)
AltsMatch(src, lo, hi, alts, k) ==
  IF k > Len(alts) THEN -1
  ELSE LET e == ItemsMatch(src, lo, hi, alts[k], 1, lo)
       IN IF e # -1 THEN e ELSE AltsMatch(src, lo, hi, alts, k + 1)

\* The end of the match that starts at the beginning of the window, or -1
RegexMatch(src, lo, hi, alts) == AltsMatch(src, lo, hi, alts, 1)
=============================================================================
