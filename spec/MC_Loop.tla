------------------------------- MODULE MC_Loop --------------------------------
(***************************************************************************)
(* Why the layout of an operand cannot matter: an elementwise loop over    *)
(* several operands may drop axes of length one, exchange axes, merge two  *)
(* axes that are nested in every operand, and reverse an axis everywhere.  *)
(* Whatever the sequence of such steps, the loop visits the same bag of    *)
(* tuples of cells, so the value computed for every output cell is the     *)
(* same.  A merge that looks at one operand only does not have this        *)
(* property (checked as well: OneSided must find a counterexample).        *)
(***************************************************************************)
EXTENDS NdArray
CONSTANTS Shapes, Strides, Operands, Steps, OneSided
VARIABLES sh, st, of, step, visits

\* tuples of addresses in the order of the nest
Visits(h, s, o) ==
    LET cs == CStr(h)
    IN  [q \in 1 .. Prod(h) |-> [i \in 1 .. Operands |-> o[i] + Dot(UnravelW(q - 1, h, cs), s[i])]]
Bag(v) == [x \in Rng(v) |-> Cardinality({q \in DOMAIN v : v[q] = x})]

\* operand 1 is the output: its cells are distinct
Init == /\ sh \in Shapes
        /\ st \in [1 .. Operands -> [1 .. Len(sh) -> Strides]]
        /\ of = [i \in 1 .. Operands |-> 0]
        /\ step = 0
        /\ visits = Bag(Visits(sh, st, of))
        /\ LET a == [q \in 1 .. Prod(sh) |-> Visits(sh, st, of)[q][1]] IN NoDup(a)
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drop == \E k \in DOMAIN sh :
    /\ sh[k] = 1
    /\ sh' = Cut(sh, k) /\ st' = [i \in 1 .. Operands |-> Cut(st[i], k)] /\ of' = of
Sw(s, j, k) == [m \in DOMAIN s |-> IF m = j THEN s[k] ELSE IF m = k THEN s[j] ELSE s[m]]
Swap == \E j, k \in DOMAIN sh :
    /\ j < k
    /\ sh' = Sw(sh, j, k) /\ st' = [i \in 1 .. Operands |-> Sw(st[i], j, k)] /\ of' = of
Nested(i, k) == st[i][k] = st[i][k + 1] * sh[k + 1]
Merge == \E k \in 1 .. (Len(sh) - 1) :
    /\ IF OneSided THEN Nested(1, k) ELSE \A i \in 1 .. Operands : Nested(i, k)
    /\ sh' = Cut([sh EXCEPT ![k + 1] = sh[k] * sh[k + 1]], k)
    /\ st' = [i \in 1 .. Operands |-> Cut(st[i], k)]
    /\ of' = of
Turn == \E k \in DOMAIN sh :
    /\ sh[k] >= 1
    /\ sh' = sh
    /\ st' = [i \in 1 .. Operands |-> [st[i] EXCEPT ![k] = -st[i][k]]]
    /\ of' = [i \in 1 .. Operands |-> of[i] + (sh[k] - 1) * st[i][k]]
Next == step < Steps /\ step' = step + 1 /\ visits' = visits /\ (Drop \/ Swap \/ Merge \/ Turn)
Spec == Init /\ [][Next]_<<sh, st, of, step, visits>>

SameVisits == Bag(Visits(sh, st, of)) = visits
ShapesQuick == {<<2, 3>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>, <<3>>, <<0, 2>>, <<>>}
ShapesDeep == ShapesQuick \cup {<<2, 2, 2>>, <<1, 2, 3>>}
StridesQuick == {-1, 0, 1, 2, 3}
StridesDeep == {-2, 0, 1, 2, 4}
===============================================================================
