-------------------------------- MODULE Linalg --------------------------------
(***************************************************************************)
(* Dense linear algebra over Gaussian integers.  A number is <<re, im>>, a *)
(* matrix a function of rows onto functions of columns.  Results that are  *)
(* not integers are judged by the equations that define them, on values    *)
(* multiplied by a scale and rounded.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LAbs(x) == IF x < 0 THEN -x ELSE x
Zero == <<0, 0>>
One == <<1, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Neg(x) == <<-x[1], -x[2]>>
Mul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
Times(k, x) == <<k * x[1], k * x[2]>>
Mag(x) == LAbs(x[1]) + LAbs(x[2])        \* an upper bound of the modulus
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE Add(SumTo(f, n - 1), f[n])
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]

NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mat(m, n, F(_, _)) == [i \in 1 .. m |-> [j \in 1 .. n |-> F(i, j)]]
Dagger(A, m, n) == [j \in 1 .. n |-> [i \in 1 .. m |-> Conj(A[i][j])]]
MM(A, B, m, k, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> SumTo([l \in 1 .. k |-> Mul(A[i][l], B[l][j])], k)]]
Ident(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN One ELSE Zero]]
\* without row r and column c
Minor(A, n, r, c) == [i \in 1 .. n - 1 |-> [j \in 1 .. n - 1 |->
    A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_, _)
Det(A, n) == IF n = 0 THEN One
             ELSE SumTo([j \in 1 .. n |-> IF A[1][j] = Zero THEN Zero
                                          ELSE Times(IF j % 2 = 1 THEN 1 ELSE -1, Mul(A[1][j], Det(Minor(A, n, 1, j), n - 1)))], n)
\* A * Adj(A) = Det(A) * Ident
Adj(A, n) == [i \in 1 .. n |-> [j \in 1 .. n |-> Times(IF (i + j) % 2 = 0 THEN 1 ELSE -1, Det(Minor(A, n, j, i), n - 1))]]
Lead(A, k) == [i \in 1 .. k |-> [j \in 1 .. k |-> A[i][j]]]
\* Hermitian matrices: positive definite iff every leading minor is positive
PosDef(A, n) == \A k \in 1 .. n : Det(Lead(A, k), k)[1] > 0
Sub2(A, R, C) == \* rows and columns by increasing sequences
    [i \in 1 .. Len(R) |-> [j \in 1 .. Len(C) |-> A[R[i]][C[j]]]]
RECURSIVE IncSeqs(_, _)
IncSeqs(k, n) == IF k = 0 THEN {<<>>} ELSE IF n = 0 THEN {}
                 ELSE IncSeqs(k, n - 1) \cup {Append(q, n) : q \in IncSeqs(k - 1, n - 1)}
HasMinor(A, m, n, k) == \E R \in IncSeqs(k, m), C \in IncSeqs(k, n) : Det(Sub2(A, R, C), k) # Zero
Rank(A, m, n) == LET K == {k \in 0 .. (IF m < n THEN m ELSE n) : HasMinor(A, m, n, k)}
                 IN  CHOOSE k \in K : \A j \in K : j <= k
Trace(A, n) == SumTo([i \in 1 .. n |-> A[i][i]], n)
RECURSIVE Power(_, _, _)
Power(A, n, k) == IF k = 1 THEN A ELSE MM(Power(A, n, k - 1), A, n, n, n)

\* The matrix a routine sees that is told to look at one triangle only
Symm(A, n, lower, herm) == [i \in 1 .. n |-> [j \in 1 .. n |->
    IF i = j THEN A[i][j]
    ELSE IF (i > j) = lower THEN A[i][j] ELSE IF herm THEN Conj(A[j][i]) ELSE A[j][i]]]
Trian(A, n, lower) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j \/ ((i > j) = lower) THEN A[i][j] ELSE Zero]]
MaxMag(A, m, n) == LET V == {Mag(A[i][j]) : i \in 1 .. m, j \in 1 .. n} \cup {0} IN CHOOSE x \in V : \A y \in V : y <= x
RowMag(A, i, n) == ISum([j \in 1 .. n |-> Mag(A[i][j])], n)
ColMag(A, j, m) == ISum([i \in 1 .. m |-> Mag(A[i][j])], m)
===============================================================================
