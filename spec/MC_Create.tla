------------------------------ MODULE MC_Create -------------------------------
(* The definitions of Create, over all small parameters. *)
EXTENDS Create
CONSTANTS Lim, Side
VARIABLES q
Kinds == {"arange", "linspace", "eye", "like"}
R == -Lim .. Lim
Shapes == UNION {[1 .. n -> 0 .. Side] : n \in 0 .. 3}
Init == \/ \E a \in R, b \in R, p \in R \ {0} : q = [k |-> "arange", a |-> a, b |-> b, p |-> p]
        \/ \E a \in R, b \in R, n \in 0 .. Lim, ep \in BOOLEAN : q = [k |-> "linspace", a |-> a, b |-> b, n |-> n, ep |-> ep]
        \/ \E n \in 0 .. Side + 1, m \in 0 .. Side + 1, d \in R : q = [k |-> "eye", n |-> n, m |-> m, d |-> d]
        \/ \E sh \in Shapes, o \in {"C", "F"} : q = [k |-> "like", sh |-> sh, o |-> o]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

\* all and only the multiples of the step from start on that come before stop
ArangeIs == q.k = "arange" =>
    LET v == Arange(q.a, q.b, q.p)
        want == {x \in -3 * Lim .. 3 * Lim : (IF q.p > 0 THEN x >= q.a /\ x < q.b ELSE x <= q.a /\ x > q.b) /\ (x - q.a) % Abs(q.p) = 0}
    IN  Rng(v) = want /\ NoDup(v) /\ (Len(v) > 0 => v[1] = q.a)
LinspaceIs == q.k = "linspace" =>
    LET v == Linspace(q.a, q.b, q.n, q.ep)
        d == LinDen(q.n, q.ep)
    IN  /\ Len(v) = q.n
        /\ (q.n > 0 => v[1] = q.a * d)
        /\ (q.n > 1 /\ q.ep => v[q.n] = q.b * d)
        /\ (q.n > 1 /\ ~q.ep => v[q.n] + (v[2] - v[1]) = q.b * d)
        /\ \A i \in 1 .. q.n - 1 : v[i + 1] - v[i] = q.b - q.a
\* the identity read in the other order is the identity of the other shape and diagonal
EyeMirror == q.k = "eye" =>
    LET x == Eye(q.n, q.m, q.d)
        y == Eye(q.m, q.n, -q.d)
    IN  /\ \A i \in 0 .. q.n - 1, j \in 0 .. q.m - 1 : x[i * q.m + j + 1] = y[j * q.n + i + 1]
        /\ SumSeq(x) = Cardinality({i \in 0 .. q.n - 1 : i + q.d \in 0 .. q.m - 1})
\* a contiguous layout is dense, keeps itself and fits exactly
LikeIs == q.k = "like" =>
    LET st == Contig(q.sh, q.o) IN
    /\ Dense(q.sh, st) /\ LikeLayout(q.sh, st, q.o, st) /\ LikeLayout(q.sh, st, "A", st) /\ LikeLayout(q.sh, st, "K", st)
    /\ Fits(q.sh, st, 0, Prod(q.sh)) /\ (Prod(q.sh) > 0 => ~Fits(q.sh, st, 0, Prod(q.sh) - 1))
===============================================================================
