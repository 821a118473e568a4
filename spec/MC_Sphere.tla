------------------------------ MODULE MC_Sphere ------------------------------
(***************************************************************************)
(* The facts behind the judgement of quadrature rules: the recursion for   *)
(* the means is consistent with x^2 + y^2 + z^2 = 1, does not depend on    *)
(* the order of the exponents, and its limb arithmetic stays within the    *)
(* last places; and orbits of points under the octahedral group have the   *)
(* sizes 6, 8, 12, 24, 24, 48, are disjoint, have mean zero in every odd   *)
(* monomial, and integrate every polynomial of degree three exactly, which *)
(* makes any weighted union of orbits whose weights add up to one a rule   *)
(* of order 3, the first of the family.  A state is a growing set of       *)
(* orbits of points of whole coordinates.                                  *)
(***************************************************************************)
EXTENDS Sphere
CONSTANTS Side, Deg
VARIABLES S, e
vars == <<S, e>>

Cand == {p \in (0 .. Side) \X (0 .. Side) \X (0 .. Side) : p # <<0, 0, 0>> /\ p[1] <= p[2] /\ p[2] <= p[3]}
Init == S = {} /\ e \in {x \in (0 .. Deg) \X (0 .. Deg) \X (0 .. Deg) : x[1] + x[2] + x[3] <= Deg}
Next == \E p \in Cand : p \notin S /\ Cardinality(S) < 9 /\ S' = S \cup Orbit({p}) /\ e' = e
Spec == Init /\ [][Next]_vars

Add(x, y) == LET b == x[2] + y[2] IN <<x[1] + y[1] + (b \div L), b % L>>
Means == LET i == e[1]
             j == e[2]
             k == e[3]
             m == Mean(i, j, k)
         IN  /\ m[2] \in 0 .. (L - 1)
             /\ Near(Mean(j, k, i), m, Deg) /\ Near(Mean(j, i, k), m, Deg)
             /\ Near(Add(Add(Mean(i + 2, j, k), Mean(i, j + 2, k)), Mean(i, j, k + 2)), m, 3 * Deg)
\* against the closed formula (i-1)!!(j-1)!!(k-1)!!/(i+j+k+1)!!, while that fits
RECURSIVE DF(_)
DF(n) == IF n <= 1 THEN 1 ELSE n * DF(n - 2)
Formula == (e[1] + e[2] + e[3] <= 8 /\ e[1] % 2 = 0 /\ e[2] % 2 = 0 /\ e[3] % 2 = 0) =>
    LET num == DF(e[1] - 1) * DF(e[2] - 1) * DF(e[3] - 1)
        den == DF(e[1] + e[2] + e[3] + 1)
        m == Mean(e[1], e[2], e[3])
        lo == num * L
    IN  Near(m, <<lo \div den, ((lo % den) * L) \div den>>, 2 * Deg)
Orbits == /\ Invariant(S)
          /\ \A p \in S : Cardinality(Orbit({p})) \in {6, 8, 12, 24, 48}
          /\ Cardinality(S) = SumSeq([i \in 1 .. Cardinality({p \in S : p \in Cand}) |->
                 Cardinality(Orbit({SetToSeq({p \in S : p \in Cand})[i]}))])
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Sum(f(_)) == MapThenSumSet(f, S)
Odd == (e[1] % 2 = 1 \/ e[2] % 2 = 1 \/ e[3] % 2 = 1) => (e[1] + e[2] + e[3] > 7 \/ Sum(LAMBDA p : Pow(p[1], e[1]) * Pow(p[2], e[2]) * Pow(p[3], e[3])) = 0)
Third == 3 * Sum(LAMBDA p : p[1] * p[1]) = Sum(LAMBDA p : p[1] * p[1] + p[2] * p[2] + p[3] * p[3])
\* the table of the family: increasing, and every size is made of orbits that have room for the rule
Table == /\ \A i \in 1 .. (Len(Known) - 1) : Known[i][1] < Known[i + 1][1] /\ Known[i][2] < Known[i + 1][2]
         /\ \A i \in DOMAIN Known : OrderOf(Points(Known[i][1])) = Known[i][1]
         \* efficiency: (n + 1)^2 harmonics against three numbers per point, never better than one
         /\ \A i \in DOMAIN Known : (Known[i][1] + 1) * (Known[i][1] + 1) <= 3 * Known[i][2]
         /\ \A i \in DOMAIN Known : \E a, b, c \in {0, 1} : (Known[i][2] - 6 * a - 12 * b - 8 * c) % 24 = 0
=============================================================================
