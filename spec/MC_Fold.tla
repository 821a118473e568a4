-------------------------------- MODULE MC_Fold -------------------------------
(***************************************************************************)
(* Parallel reduction.  The input is cut into segments (further cut at any *)
(* time while a segment is untouched, as a work-stealing pool does), every *)
(* segment is folded from the neutral accumulator by its own worker, steps *)
(* of different workers interleave freely, and finished accumulators are   *)
(* combined in ANY order.  Whatever the schedule, the result is the value  *)
(* that module Reduce defines.  The accumulators: the bag of elements (the *)
(* free commutative monoid: it decides sum, product, count, any, all,      *)
(* minimum, maximum), and the pair (place, value) of arg-minimum with the  *)
(* library's rule "smaller value, then smaller place".                     *)
(***************************************************************************)
EXTENDS Reduce
CONSTANTS Vals, MaxLen
VARIABLES xs, segs
vars == <<xs, segs>>

None == <<>>
Take(acc, i, x) == \* fold one element into an arg accumulator
    IF acc = None THEN <<i, x>>
    ELSE IF x < acc[2] THEN <<i, x>>
    ELSE IF x = acc[2] /\ i < acc[1] THEN <<i, x>> ELSE acc
Join(a, b) == IF b = None THEN a ELSE IF a = None THEN b ELSE Take(a, b[1], b[2])
NoBag == [i \in 1 .. Len(xs) |-> 0]
Seg(lo, hi) == [lo |-> lo, hi |-> hi, pos |-> lo, arg |-> None, bag |-> [i \in 1 .. Len(xs) |-> 0], done |-> lo = hi]

Init == /\ xs \in UNION {[1 .. n -> Vals] : n \in 1 .. MaxLen}
        /\ segs = {[lo |-> 1, hi |-> Len(xs) + 1, pos |-> 1, arg |-> None, bag |-> NoBag, done |-> FALSE]}
Cut == \E g \in segs : \E m \in (g.lo + 1) .. (g.hi - 1) :
         /\ g.pos = g.lo /\ ~g.done
         /\ segs' = (segs \ {g}) \cup {Seg(g.lo, m), Seg(m, g.hi)}
Step == \E g \in segs :
         /\ ~g.done
         /\ segs' = (segs \ {g}) \cup {[g EXCEPT !.pos = @ + 1, !.arg = Take(@, g.pos, xs[g.pos]),
                                          !.bag[g.pos] = @ + 1, !.done = (g.pos + 1 = g.hi)]}
Combine == \E g \in segs : \E h \in segs :
         /\ g # h /\ g.done /\ h.done
         /\ segs' = (segs \ {g, h}) \cup {[g EXCEPT !.arg = Join(g.arg, h.arg),
                                             !.bag = [i \in 1 .. Len(xs) |-> g.bag[i] + h.bag[i]]]}
Next == /\ (Cut \/ Step \/ Combine) /\ UNCHANGED xs
Spec == Init /\ [][Next]_vars

Finished == Cardinality(segs) = 1 /\ \A g \in segs : g.done
ExactlyOnce == Finished => \A g \in segs : \A i \in 1 .. Len(xs) : g.bag[i] = 1
FirstMinimum == Finished => \A g \in segs : g.arg[1] - 1 = Value("argmin", xs) /\ g.arg[2] = Value("min", xs)
NeverTwice == \A i \in 1 .. Len(xs) : \A g, h \in segs : (g # h) => g.bag[i] + h.bag[i] <= 1
===============================================================================
