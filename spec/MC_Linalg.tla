------------------------------ MODULE MC_Linalg -------------------------------
(***************************************************************************)
(* The definitions of Linalg against machines that compute the same:       *)
(*  "elim"  fraction-free elimination with any choice of pivots            *)
(*  "gemm"  a product whose operands are transposed, conjugated or         *)
(*          exchanged to suit the order of memory, in any sequence         *)
(*  "trsm"  a triangular system rewritten the same way                     *)
(***************************************************************************)
EXTENDS Linalg
CONSTANTS Dim,       \* order of the matrices of eliminations
          Vals,      \* whole numbers that occur
          Gauss,     \* whether Gaussian integers occur
          Depth      \* rewritings per call
ValsQ == -2 .. 2
ValsD == -1 .. 1
VARIABLES q, A, M, k, sg, prev, swapped, exact
vars == <<q, A, M, k, sg, prev, swapped, exact>>
Nums == {<<x, 0>> : x \in Vals} \cup (IF Gauss THEN {<<0, 1>>, <<1, -1>>} ELSE {})
Square(n, V) == [1 .. n -> [1 .. n -> V]]
Small == {<<0, 1>>, <<1, 0>>, <<2, -1>>}
Transposed(X, m, n) == [j \in 1 .. n |-> [i \in 1 .. m |-> X[i][j]]]
Conjugated(X, m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> Conj(X[i][j])]]

\* exact division of Gaussian integers
Norm(y) == y[1] * y[1] + y[2] * y[2]
Divides(y, x) == LET p == Mul(x, Conj(y)) IN p[1] % Norm(y) = 0 /\ p[2] % Norm(y) = 0
Quo(x, y) == LET p == Mul(x, Conj(y)) IN <<p[1] \div Norm(y), p[2] \div Norm(y)>>

Op(X, n, t) == CASE t = "T" -> Transposed(X, n, n) [] t = "C" -> Dagger(X, n, n) [] OTHER -> X
Tri(c) == LET T0 == Trian(c.a, 2, c.low)
          IN  [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> IF c.unit /\ i = j THEN One ELSE T0[i][j]]]
\* what a call stands for
Product(c) == LET P == MM(Op(c.a, 2, c.ta), Op(c.b, 2, c.tb), 2, 2, 2) IN IF c.rev THEN Transposed(P, 2, 2) ELSE P
System(c) == LET S == Op(Tri(c), 2, c.ta) IN IF c.rev THEN [m |-> Transposed(S, 2, 2), right |-> ~c.right] ELSE [m |-> S, right |-> c.right]
Flip(t) == IF t = "N" THEN "T" ELSE "N"
FlipOf(X, t) == IF t = "C" THEN Conjugated(Transposed(X, 2, 2), 2, 2) ELSE Transposed(X, 2, 2)

NoMatrix == <<>>
Init == \/ /\ q = [k |-> "elim", sees |-> NoMatrix]
           /\ A \in Square(Dim, Nums) /\ M = A
           /\ k = 0 /\ sg = 1 /\ prev = One /\ swapped = FALSE /\ exact = TRUE
        \/ /\ \E a \in Square(2, Small), ta \in {"N", "T", "C"}, tb \in {"N", "T", "C"} :
                LET b == [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> <<i, j - 2>>]]
                    c == [k |-> "gemm", a |-> a, b |-> b, ta |-> ta, tb |-> tb, rev |-> FALSE, d |-> Depth]
                IN  q = [c |-> c, sees |-> Product(c), k |-> "gemm"]
           /\ A = NoMatrix /\ M = NoMatrix /\ k = 0 /\ sg = 1 /\ prev = One /\ swapped = FALSE /\ exact = TRUE
        \/ /\ \E a \in Square(2, Small), ta \in {"N", "T", "C"}, low, unit, right \in BOOLEAN :
                LET c == [k |-> "trsm", a |-> a, ta |-> ta, low |-> low, unit |-> unit, right |-> right, rev |-> FALSE, d |-> Depth]
                IN  q = [c |-> c, sees |-> System(c), k |-> "trsm"]
           /\ A = NoMatrix /\ M = NoMatrix /\ k = 0 /\ sg = 1 /\ prev = One /\ swapped = FALSE /\ exact = TRUE

\* one column is eliminated below a pivot that is not zero
Column(r) ==
    LET p == k + 1
        W == [i \in 1 .. Dim |-> IF i = p THEN M[r] ELSE IF i = r THEN M[p] ELSE M[i]]
        Raw(i, j) == Sub(Mul(W[p][p], W[i][j]), Mul(W[i][p], W[p][j]))
    IN  /\ exact' = (exact /\ \A i, j \in p + 1 .. Dim : Divides(prev, Raw(i, j)))
        /\ M' = [i \in 1 .. Dim |-> [j \in 1 .. Dim |->
                    IF i <= p THEN W[i][j] ELSE IF j <= p THEN Zero ELSE Quo(Raw(i, j), prev)]]
        /\ sg' = IF r = p THEN sg ELSE -sg
        /\ swapped' = (swapped \/ r # p)
        /\ prev' = W[p][p]
        /\ k' = p
        /\ UNCHANGED <<q, A>>
Eliminate == q.k = "elim" /\ k < Dim /\ exact /\ \E r \in k + 1 .. Dim : M[r][k + 1] # Zero /\ Column(r)
Rewrite(c) == q' = [q EXCEPT !.c = [c EXCEPT !.d = @ - 1]] /\ UNCHANGED <<A, M, k, sg, prev, swapped, exact>>
FlipA == q.k \in {"gemm", "trsm"} /\ q.c.d > 0 /\
         LET c1 == [q.c EXCEPT !.a = FlipOf(q.c.a, q.c.ta), !.ta = Flip(q.c.ta)]
         IN  Rewrite(IF q.k = "trsm" THEN [c1 EXCEPT !.low = ~q.c.low] ELSE c1)
FlipB == q.k = "gemm" /\ q.c.d > 0 /\ Rewrite([q.c EXCEPT !.b = FlipOf(q.c.b, q.c.tb), !.tb = Flip(q.c.tb)])
\* the same product in the other order of memory: operands change places
Turn == \/ /\ q.k = "gemm" /\ q.c.d > 0
           /\ Rewrite([q.c EXCEPT !.a = Transposed(q.c.b, 2, 2), !.b = Transposed(q.c.a, 2, 2),
                                  !.ta = q.c.tb, !.tb = q.c.ta, !.rev = ~q.c.rev])
        \/ /\ q.k = "trsm" /\ q.c.d > 0
           /\ Rewrite([q.c EXCEPT !.a = Transposed(q.c.a, 2, 2), !.low = ~q.c.low, !.right = ~q.c.right, !.rev = ~q.c.rev])
Next == Eliminate \/ FlipA \/ FlipB \/ Turn
Spec == Init /\ [][Next]_vars

Elim == q.k = "elim"
Fresh == Elim /\ k = 0
Stuck == k < Dim /\ \A r \in k + 1 .. Dim : M[r][k + 1] = Zero
ExactDivision == exact
DetByElimination == Elim => /\ k = Dim => Times(sg, M[Dim][Dim]) = Det(A, Dim)
                            /\ Stuck => Det(A, Dim) = Zero
LeadingMinors == (Elim /\ ~swapped /\ k > 0) => prev = Det(Lead(A, k), k)
Inverse == Fresh => LET d == Det(A, Dim)  D == [i \in 1 .. Dim |-> [j \in 1 .. Dim |-> IF i = j THEN d ELSE Zero]]
                    IN  MM(A, Adj(A, Dim), Dim, Dim, Dim) = D /\ MM(Adj(A, Dim), A, Dim, Dim, Dim) = D
Ranks == Fresh => LET r == Rank(A, Dim, Dim)  H == Dagger(A, Dim, Dim) IN
    /\ (r = Dim) = (Det(A, Dim) # Zero)
    /\ r = Rank(H, Dim, Dim) /\ r = Rank(MM(H, A, Dim, Dim, Dim), Dim, Dim)
    /\ (r = 0) = (\A i, j \in 1 .. Dim : A[i][j] = Zero)
Grams == Fresh => LET G == MM(Dagger(A, Dim, Dim), A, Dim, Dim, Dim) IN PosDef(G, Dim) = (Det(A, Dim) # Zero)
Forms == Fresh => \A low \in BOOLEAN :
    LET S == Symm(A, Dim, low, TRUE)
        R == [i \in 1 .. Dim |-> [j \in 1 .. Dim |-> IF i = j THEN <<S[i][i][1], 0>> ELSE S[i][j]]]
    IN  /\ Dagger(R, Dim, Dim) = R
        /\ PosDef(R, Dim) => \A x \in [1 .. Dim -> {<<0, 0>>, <<1, 0>>, <<-1, 1>>}] :
              (\E i \in 1 .. Dim : x[i] # Zero) =>
                  SumTo([i \in 1 .. Dim |-> SumTo([j \in 1 .. Dim |-> Mul(Mul(Conj(x[i]), R[i][j]), x[j])], Dim)], Dim)[1] > 0
Multiplicative == Fresh => LET B == Symm(A, Dim, TRUE, TRUE)
                           IN  Det(MM(A, B, Dim, Dim, Dim), Dim) = Mul(Det(A, Dim), Det(B, Dim))
Newton == Fresh => Sub(Mul(Trace(A, Dim), Trace(A, Dim)), Trace(Power(A, Dim, 2), Dim))
                   = Times(2, SumTo([r \in 1 .. Dim |-> SumTo([s \in 1 .. Dim |->
                         IF r < s THEN Det(Sub2(A, <<r, s>>, <<r, s>>), 2) ELSE Zero], Dim)], Dim))
SameProduct == q.k = "gemm" => Product(q.c) = q.sees
SameSystem == q.k = "trsm" => System(q.c) = q.sees
===============================================================================
