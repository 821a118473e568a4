------------------------------- MODULE Sphere --------------------------------
(***************************************************************************)
(* Quadrature on the unit sphere.  A rule of order n is a set of weighted  *)
(* points whose weighted mean of every polynomial of degree <= n is the    *)
(* polynomial's mean over the sphere.  The means of monomials are rational *)
(* and follow a recursion; they are computed to fourteen decimals with two *)
(* limbs (a number v >= 0 is <<a, b>> with v = a * 1e-7 + b * 1e-14).      *)
(***************************************************************************)
EXTENDS NdArray
CONSTANT L     \* the base, 10000000 (a smaller one in the model)

\* the published family of rules: order and number of points
Known == << <<3, 6>>, <<5, 14>>, <<7, 26>>, <<9, 38>>, <<11, 50>>, <<13, 74>>, <<15, 86>>, <<17, 110>>, <<19, 146>>, <<21, 170>>,
            <<23, 194>>, <<25, 230>>, <<27, 266>>, <<29, 302>>, <<31, 350>>, <<35, 434>>, <<41, 590>>, <<47, 770>>, <<53, 974>>,
            <<59, 1202>>, <<65, 1454>>, <<71, 1730>>, <<77, 2030>>, <<83, 2354>>, <<89, 2702>>, <<95, 3074>>, <<101, 3470>>,
            <<107, 3890>>, <<113, 4334>>, <<119, 4802>>, <<125, 5294>>, <<131, 5810>> >>
IsOrder(n) == \E i \in DOMAIN Known : Known[i][1] = n
Points(n) == Known[CHOOSE i \in DOMAIN Known : Known[i][1] = n][2]
IsSize(m) == \E i \in DOMAIN Known : Known[i][2] = m
OrderOf(m) == Known[CHOOSE i \in DOMAIN Known : Known[i][2] = m][1]

\* x * m / d in limbs, for small m and d
MulDiv(x, m, d) ==
    LET p == x[2] * m
        a == (x[1] * m) + (p \div L)
        b == p % L
        ra == a % d
    IN  <<a \div d, ((ra * L) + b) \div d>>
\* mean of x^i y^j z^k over the sphere: one factor after the other
RECURSIVE Up(_, _, _, _)
Up(x, e, i, s) == \* raise one exponent from e to i in steps of two; s is the sum of all exponents so far
    IF e >= i THEN x ELSE Up(MulDiv(x, e + 1, s + 3), e + 2, i, s + 2)
Mean(i, j, k) ==
    IF i % 2 = 1 \/ j % 2 = 1 \/ k % 2 = 1 THEN <<0, 0>>
    ELSE Up(Up(Up(<<L, 0>>, 0, i, 0), 0, j, i), 0, k, i + j)
\* |x - y| <= t units of the last place
Near(x, y, t) == /\ Abs(x[1] - y[1]) <= 1
                 /\ Abs(((x[1] - y[1]) * L) + (x[2] - y[2])) <= t

\* the symmetries of the octahedron act on points; two of them and a sign generate all 48
SwapXY(p) == <<p[2], p[1], p[3]>>
Turn(p) == <<p[2], p[3], p[1]>>
Flip(p) == <<-p[1], p[2], p[3]>>
Gens(p) == {SwapXY(p), Turn(p), Flip(p)}
RECURSIVE Orbit(_)
Orbit(S) == LET T == S \cup UNION {Gens(p) : p \in S} IN IF T = S THEN S ELSE Orbit(T)
Invariant(S) == \A p \in S : Gens(p) \subseteq S
\* weighted points <<x, y, z, w>>
InvariantW(S) == \A p \in S : \A q \in Gens(<<p[1], p[2], p[3]>>) : <<q[1], q[2], q[3], p[4]>> \in S
=============================================================================
