----------------------------- MODULE IterMachine ------------------------------
(***************************************************************************)
(* Double-ended, exactly sized, splittable iteration.  An iteration is a   *)
(* set of pieces; a piece is an interval lo..hi-1 of ranks of the sequence *)
(* being iterated.  Steps take ranks from either end, skip, split a piece  *)
(* in two, or drain a piece (forwards, backwards, in parallel).            *)
(***************************************************************************)
EXTENDS NdArray
VARIABLES pieces    \* piece id -> [lo, hi]

Rem(p) == p.hi - p.lo
Up(a, n) == [q \in 1 .. n |-> a + q - 1]       \* n ranks upwards from a
Down(a, n) == [q \in 1 .. n |-> a - q + 1]     \* n ranks downwards from a
\* meaning of a step on piece p: ranks delivered in this order, the remaining interval, ranks skipped
StepOn(p, op, k) ==
    LET n == Rem(p)
        none == [out |-> <<>>, rest |-> p, skip |-> <<>>]
    IN
    CASE op = "front" -> IF n = 0 THEN none ELSE [out |-> <<p.lo>>, rest |-> [p EXCEPT !.lo = p.lo + 1], skip |-> <<>>]
      [] op = "back" -> IF n = 0 THEN none ELSE [out |-> <<p.hi - 1>>, rest |-> [p EXCEPT !.hi = p.hi - 1], skip |-> <<>>]
      [] op = "nth" -> IF k >= n THEN [out |-> <<>>, rest |-> [p EXCEPT !.lo = p.hi], skip |-> Up(p.lo, n)]
                       ELSE [out |-> <<p.lo + k>>, rest |-> [p EXCEPT !.lo = p.lo + k + 1], skip |-> Up(p.lo, k)]
      [] op = "nthb" -> IF k >= n THEN [out |-> <<>>, rest |-> [p EXCEPT !.hi = p.lo], skip |-> Up(p.lo, n)]
                        ELSE [out |-> <<p.hi - 1 - k>>, rest |-> [p EXCEPT !.hi = p.hi - 1 - k], skip |-> Down(p.hi - 1, k)]
      [] op \in {"rest", "par"} -> [out |-> Up(p.lo, n), rest |-> [p EXCEPT !.lo = p.hi], skip |-> <<>>]
      [] op = "restb" -> [out |-> Down(p.hi - 1, n), rest |-> [p EXCEPT !.hi = p.lo], skip |-> <<>>]
      [] op \in {"len", "hint"} -> none
SplitOn(p, k) == [left |-> [p EXCEPT !.hi = p.lo + k], right |-> [p EXCEPT !.lo = p.lo + k]]
Ranks(p) == p.lo .. (p.hi - 1)
Disjoint == \A i, j \in DOMAIN pieces : i # j => Ranks(pieces[i]) \cap Ranks(pieces[j]) = {}
===============================================================================
