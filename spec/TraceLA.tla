------------------------------- MODULE TraceLA --------------------------------
(***************************************************************************)
(* Validation of recorded calls of the linear algebra routines.            *)
(***************************************************************************)
EXTENDS Linalg, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
\* the matrix of a recorded tensor, values in row-major order
NumAt(t, q) == <<t.v[q], IF Len(t.im) = 0 THEN 0 ELSE t.im[q]>>
Matrix(t, m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> NumAt(t, (i - 1) * n + j)]]
Column(t, n) == [i \in 1 .. n |-> <<NumAt(t, i)>>]
Tame(A, m, n, lim) == \A i \in 1 .. m, j \in 1 .. n : LAbs(A[i][j][1]) <= lim /\ LAbs(A[i][j][2]) <= lim

Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Calm(e) == e.inf \/ e.r.k # "panic"        \* a fallible call never panics
Lower(e) == e.uplo = "L" \/ (e.uplo = "" /\ e.o = "C")
SvdLike == {"svd", "svdvals", "svdx", "svdvalsx", "pinv"}
Solves == {"solve_general", "solve_triangular", "solve_symmetric"}
General == {"eighg", "eighgx", "eigvalshg", "eigvalshgx"}
Plain == {"eigh", "eighx", "eigvalsh", "eigvalshx"}
Drivers(e) == IF e.e \in General THEN {"", "gv", "gvd"} ELSE IF e.e \in Plain THEN {"", "ev", "evd"}
              ELSE IF e.e \in SvdLike THEN {"", "gesvd", "gesdd"} ELSE {""}
\* requests that are not offered: eigenvectors of eigvalsh, part of the spectrum, unknown routines
Offered(e) == ~e.wrong /\ e.subset = 0 /\ e.driver \in Drivers(e) /\ (e.e \in General => e.itype \in 1 .. 3)
ShapesOk(e) ==
    /\ Len(e.a.sh) = 2
    /\ e.e \notin SvdLike => e.a.sh[1] = e.a.sh[2]
    /\ e.e \in Solves => Len(e.b.sh) \in {1, 2} /\ e.b.sh[1] = e.a.sh[1]
    /\ e.e \in General => e.b.sh = e.a.sh
    /\ ~e.foreign
    /\ Offered(e)
N(e) == e.a.sh[1]
\* the operand as the routine sees it
Seen(e) ==
    LET n == N(e)  A == Matrix(e.a, n, e.a.sh[2]) IN
    CASE e.e \in {"det", "slogdet", "inv", "solve_general"} \cup SvdLike -> A
      [] e.e = "solve_triangular" -> Trian(A, n, Lower(e))
      [] e.e = "solve_symmetric" -> Symm(A, n, Lower(e), e.hermi)
      [] OTHER -> Symm(A, n, Lower(e), TRUE)
SeenB(e) == Symm(Matrix(e.b, N(e), N(e)), N(e), Lower(e), TRUE)

\* |q * d - S * x| within the rounding of q, componentwise
Quot(q, d, x, S) ==
    /\ LAbs(q[1]) <= 2000000000 \div (Mag(d) + 1) /\ LAbs(q[2]) <= 2000000000 \div (Mag(d) + 1)
    /\ Mag(x) <= 2000000000 \div S
    /\ LET z == Sub(Mul(q, d), Times(S, x)) t == Mag(d) + 2 IN LAbs(z[1]) <= t /\ LAbs(z[2]) <= t
QuotM(Q, d, X, m, n, S) == \A i \in 1 .. m, j \in 1 .. n : Quot(Q[i][j], d, X[i][j], S)
Within(z, t) == LAbs(z[1]) <= t /\ LAbs(z[2]) <= t

DetGood(e) == LET d == Det(Seen(e), N(e)) IN
    /\ e.r.k = "ok"
    /\ Within(Sub(<<e.r.v[1], e.r.im[1]>>, Times(e.S, d)), 1)
SlogGood(e) == LET d == Det(Seen(e), N(e))  sg == <<e.r.v[1], e.r.im[1]>> IN
    d = Zero \/
    /\ e.r.k = "ok"
    /\ Within(sg, 1025)
    /\ LAbs(sg[1] * sg[1] + sg[2] * sg[2] - 1048576) <= 4096
    /\ LAbs(e.r.abs) <= e.S * (Mag(d) + 1)
    \* sign * |det| = det
    /\ Within(Sub(Times(e.r.abs, sg), Times(1024 * e.S, d)), e.S * (Mag(d) + 1) + 2048)
InvGood(e) == LET n == N(e)  d == Det(Seen(e), n) IN
    d = Zero \/ (/\ e.r.k = "ok" /\ e.r.sh = <<n, n>>
                 /\ QuotM(Matrix(e.r, n, n), d, Adj(Seen(e), n), n, n, e.S))
SolveGood(e) ==
    LET n == N(e)  A == Seen(e)  d == Det(A, n)
        k == IF Len(e.b.sh) = 1 THEN 1 ELSE e.b.sh[2]
    IN  d = Zero \/ (/\ e.r.k = "ok" /\ e.r.sh = e.b.sh
                     /\ QuotM(Matrix(e.r, n, k), d, MM(Adj(A, n), Matrix(e.b, n, k), n, n, k), n, k, e.S))
CholGood(e) ==
    LET n == N(e)  A == Seen(e)  low == Lower(e) IN
    IF ~PosDef(A, n) THEN e.r.k # "ok"
    ELSE /\ e.r.k = "ok" /\ e.r.sh = <<n, n>>
         /\ LET X == Matrix(e.r, n, n)
                Lw == IF low THEN X ELSE Dagger(X, n, n)
            IN  /\ Tame(X, n, n, 12000)
                /\ \A i \in 1 .. n : Lw[i][i][1] > 0 /\ Lw[i][i][2] = 0
                /\ \A i, j \in 1 .. n : j > i => Lw[i][j] = Zero
                /\ LET P == MM(Lw, Dagger(Lw, n, n), n, n, n)
                   IN  \A i, j \in 1 .. n : Within(Sub(P[i][j], Times(e.S * e.S, A[i][j])), RowMag(Lw, i, n) + RowMag(Lw, j, n) + 8)
\* rounding of sum w^k for the eigenvalues w of C, which are at most n * MaxMag(C)
Slack(e, C, n, k) ==
    IF ~e.single THEN 2
    ELSE LET pw == (n * MaxMag(C, n, n)) ^ k
         IN  2 + (IF pw < 100000 THEN (e.S * pw) \div 50000 ELSE e.S * (pw \div 50000 + 1))
\* w ascending; its power sums are the traces of the powers of C
Ascending(w) == \A i \in 1 .. Len(w) - 1 : w[i] <= w[i + 1]
Sums(e, C, n) ==
    /\ Len(e.r.p) = n
    /\ \A k \in 1 .. n :
        \/ MaxMag(C, n, n) > (CASE k = 1 -> 100000 [] k = 2 -> 500 [] k = 3 -> 60 [] OTHER -> 18)
        \/ LAbs(e.r.p[k] - e.S * Trace(Power(C, n, k), n)[1]) <= Slack(e, C, n, k)
\* every column v of V: X v = w Y v, with the forms X and Y
Pairs(e, X, Y, V, n) ==
    LET XV == MM(X, V, n, n, n)  YV == MM(Y, V, n, n, n) IN
    \A i, j \in 1 .. n :
        Within(Sub(Times(e.S, XV[i][j]), Times(e.r.w[j], YV[i][j])),
               (e.S * RowMag(X, i, n) + Mag(YV[i][j]) + LAbs(e.r.w[j]) * RowMag(Y, i, n)) \div 2 + 4)
\* V^H Y V = S * S
Normal(e, Y, V, n) ==
    LET YV == MM(Y, V, n, n, n)  P == MM(Dagger(V, n, n), YV, n, n, n) IN
    \A i, j \in 1 .. n :
        Within(Sub(P[i][j], IF i = j THEN <<e.S * e.S, 0>> ELSE Zero),
               ColMag(YV, j, n) + ISum([k \in 1 .. n |-> Mag(V[k][i]) * RowMag(Y, k, n)], n) + 8)
EigShape(e, n) == e.r.k = "ok" /\ e.r.sh = <<n>> /\ Len(e.r.w) = n /\ Ascending(e.r.w)
EighGood(e) ==
    LET n == N(e)  A == Seen(e) IN
    /\ EigShape(e, n) /\ Sums(e, A, n)
    /\ e.r.vec.k = "ok" /\ e.r.vec.sh = <<n, n>>
    /\ LET V == Matrix(e.r.vec, n, n)
       IN  Tame(V, n, n, e.S + 1) /\ Pairs(e, A, Ident(n), V, n) /\ Normal(e, Ident(n), V, n)
GenGood(e) ==
    LET n == N(e)  A == Seen(e)  B == SeenB(e)  Bi == Adj(B, n)       \* Det(B) = 1
        X == CASE e.itype = 1 -> A [] e.itype = 2 -> MM(A, B, n, n, n) [] OTHER -> MM(B, A, n, n, n)
        Y == IF e.itype = 1 THEN B ELSE Ident(n)
        C == IF e.itype = 1 THEN MM(Bi, A, n, n, n) ELSE X
    IN  /\ EigShape(e, n) /\ Sums(e, C, n)
        /\ \/ e.e \notin {"eighg", "eighgx"}
           \/ (/\ e.r.vec.k = "ok" /\ e.r.vec.sh = <<n, n>>
               /\ LET V == Matrix(e.r.vec, n, n)
                  IN  /\ Tame(V, n, n, 5000)
                      /\ (\A k \in 1 .. n : LAbs(e.r.w[k]) < 40000) => Pairs(e, X, Y, V, n)
                      /\ Normal(e, IF e.itype = 3 THEN Bi ELSE B, V, n))
SvdSums(e, A, m, n) ==
    LET k == IF m < n THEN m ELSE n IN
    /\ e.r.k = "ok" /\ e.r.sh = <<k>> /\ Len(e.r.w) = k
    /\ \A i \in 1 .. k : e.r.w[i] >= 0 /\ (i < k => e.r.w[i] >= e.r.w[i + 1])
    /\ LET G == IF m < n THEN MM(A, Dagger(A, m, n), m, n, m) ELSE MM(Dagger(A, m, n), A, n, m, n)
       IN  \A i \in 1 .. k : LAbs(e.r.p[i] - e.S * Trace(Power(G, k, i), k)[1]) <= Slack(e, G, k, i)
SvdGood(e) ==
    LET m == e.a.sh[1]  n == e.a.sh[2]  k == IF m < n THEN m ELSE n
        A == Seen(e)
        ku == IF e.full THEN m ELSE k
        kv == IF e.full THEN n ELSE k
    IN  /\ SvdSums(e, A, m, n)
        /\ e.r.u.k = "ok" /\ e.r.u.sh = <<m, ku>>
        /\ e.r.vt.k = "ok" /\ e.r.vt.sh = <<kv, n>>
        /\ LET U == Matrix(e.r.u, m, ku)  Vt == Matrix(e.r.vt, kv, n)
               UU == MM(Dagger(U, m, ku), U, ku, m, ku)
               VV == MM(Vt, Dagger(Vt, kv, n), kv, n, kv)
               AV == MM(A, Dagger(Vt, kv, n), m, n, kv)
               AU == MM(Dagger(A, m, n), U, n, m, ku)
               Unit(P, kk) == \A i, j \in 1 .. kk : Within(Sub(P[i][j], IF i = j THEN <<e.S * e.S, 0>> ELSE Zero), 4 * e.S)
               Sv(j) == IF j <= k THEN e.r.w[j] ELSE 0
           IN  /\ Tame(U, m, ku, e.S + 1) /\ Tame(Vt, kv, n, e.S + 1)
               /\ Unit(UU, ku) /\ Unit(VV, kv)
               /\ \A i \in 1 .. m, j \in 1 .. kv :
                    LET want == IF j <= k THEN Times(Sv(j), U[i][j]) ELSE Zero
                    IN  Within(Sub(Times(e.S, AV[i][j]), want), (e.S * RowMag(A, i, n) + Sv(j) + e.S) \div 2 + 4)
               /\ \A i \in 1 .. n, j \in 1 .. ku :
                    LET want == IF j <= k THEN Times(Sv(j), Conj(Vt[j][i])) ELSE Zero
                    IN  Within(Sub(Times(e.S, AU[i][j]), want), (e.S * ColMag(A, i, m) + Sv(j) + e.S) \div 2 + 4)
PinvMatrix(e, A, m, n) ==
    /\ e.r.rank = Rank(A, m, n)
    /\ LET X == Matrix(e.r, n, m)
           AX == MM(A, X, m, n, m)
           XA == MM(X, A, n, m, n)
           AXA == MM(A, XA, m, n, n)
           half(i) == RowMag(A, i, n) \div 2 + 1
       IN  /\ Tame(X, n, m, 40000)
           /\ \A i, j \in 1 .. m : Within(Sub(AX[i][j], Conj(AX[j][i])), half(i) + half(j))
           /\ \A i, j \in 1 .. n : Within(Sub(XA[i][j], Conj(XA[j][i])), (ColMag(A, i, m) + ColMag(A, j, m)) \div 2 + 2)
           /\ \A i \in 1 .. m, j \in 1 .. n : Within(Sub(AXA[i][j], Times(e.S, A[i][j])), ((RowMag(A, i, n) * ColMag(A, j, m)) \div 2) + 2)
           \* X A is the projector onto a space that holds every column of X
           /\ LET P == MM(XA, X, n, n, m)
              IN  \A i \in 1 .. n, j \in 1 .. m :
                    Within(Sub(P[i][j], Times(e.S, X[i][j])), ISum([k \in 1 .. n |-> ((ColMag(A, k, m) \div 2 + 1) * (Mag(X[k][j]) + 1)) + Mag(XA[i][k])], n) + e.S)
PinvGood(e) ==
    LET m == e.a.sh[1]  n == e.a.sh[2]  A == Seen(e) IN
    /\ e.r.k = "ok" /\ e.r.sh = <<n, m>>
    \* in single precision the default tolerance is too near to the rounding to find a lower rank
    /\ LET full == IF m < n THEN m ELSE n
       IN  (e.single /\ e.plain /\ Rank(A, m, n) < full) \/ PinvMatrix(e, A, m, n)
Answer(e) ==
    CASE e.e = "det" -> DetGood(e)
      [] e.e = "slogdet" -> SlogGood(e)
      [] e.e = "inv" -> InvGood(e)
      [] e.e \in Solves -> SolveGood(e)
      [] e.e = "cholesky" -> CholGood(e)
      [] e.e \in {"eigh", "eighx"} -> EighGood(e)
      [] e.e \in {"eigvalsh", "eigvalshx"} -> EigShape(e, N(e)) /\ Sums(e, Seen(e), N(e))
      [] e.e \in General -> GenGood(e)
      [] e.e \in {"svdvals", "svdvalsx"} -> SvdSums(e, Seen(e), e.a.sh[1], e.a.sh[2])
      [] e.e \in {"svd", "svdx"} -> SvdGood(e)
      [] e.e = "pinv" -> PinvGood(e)
\* operands that are read are left alone; operands that are overwritten, only where they lie
Operands(e) ==
    /\ e.same_a \/ e.mut_a
    /\ e.same_b \/ e.mut_b
    /\ e.gaps_a /\ e.gaps_b
\* answers that are written over the operand
InPlace(e) ==
    e.r.k = "ok" =>
        /\ (e.mut_b /\ e.e \in Solves) => e.after_b.v = e.r.v /\ e.after_b.im = e.r.im
        /\ (e.mut_a /\ e.e = "inv") => e.after_a.v = e.r.v /\ e.after_a.im = e.r.im
        /\ (e.mut_a /\ e.e = "cholesky") => e.after_a.v = e.r.v /\ e.after_a.im = e.r.im
\* an owned operand whose elements repeat cannot be overwritten, and may be refused for that
Repeats(t) == \E i \in DOMAIN t.st : t.st[i] = 0 /\ t.sh[i] > 1
MayRefuse(e) == (e.fa = 2 /\ Repeats(e.a)) \/ (e.fb = 2 /\ Repeats(e.b))
Good(e) ==
    /\ Calm(e) /\ Operands(e) /\ InPlace(e)
    /\ IF ~ShapesOk(e) THEN Refused(e)
       ELSE IF 0 \in {e.a.sh[i] : i \in DOMAIN e.a.sh} THEN TRUE
       ELSE (MayRefuse(e) /\ Refused(e)) \/ Answer(e)

\* ---- level-3 routines with every flag ------------------------------------
Level3 == {"gemm", "symm", "hemm", "trsm"}
\* op(A) of an m x n matrix
Opt(A, m, n, t) ==
    CASE t = "T" -> [j \in 1 .. n |-> [i \in 1 .. m |-> A[i][j]]]
      [] t = "C" -> Dagger(A, m, n)
      [] OTHER -> A
OptRows(e, x, t) == IF t = "N" THEN x.sh[1] ELSE x.sh[2]
OptCols(e, x, t) == IF t = "N" THEN x.sh[2] ELSE x.sh[1]
Shapes3(e) ==
    /\ ~e.foreign /\ (e.e \in {"gemm", "trsm"} => e.ta # "CN") /\ (e.e = "gemm" => e.tb # "CN")
    /\ IF e.e = "gemm"
       THEN /\ OptCols(e, e.a, e.ta) = OptRows(e, e.b, e.tb)
            /\ e.hasc => e.c.sh = <<OptRows(e, e.a, e.ta), OptCols(e, e.b, e.tb)>>
       ELSE /\ e.a.sh = (IF e.right THEN <<e.b.sh[2], e.b.sh[2]>> ELSE <<e.b.sh[1], e.b.sh[1]>>)
            /\ e.hasc => e.c.sh = e.b.sh
ScaleM(x, A, m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> Mul(x, A[i][j])]]
\* alpha X Y + beta C
Axpy(e, X, Y, m, k, n) ==
    LET P == ScaleM(e.alpha, MM(X, Y, m, k, n), m, n) IN
    IF e.beta = Zero \/ ~e.hasc THEN P
    ELSE LET C == Matrix(e.c, m, n) IN [i \in 1 .. m |-> [j \in 1 .. n |-> Add(P[i][j], Mul(e.beta, C[i][j]))]]
Good3(e) ==
    /\ e.r.k # "panic" /\ e.same_a /\ e.gaps_b /\ e.gaps_c
    /\ e.same_b \/ (e.mutb /\ e.r.k = "ok")
    /\ e.same_c \/ (e.hasc /\ e.r.k = "ok")
    /\ IF ~Shapes3(e) THEN e.r.k = "err"
       ELSE /\ e.r.k = "ok"
            /\ e.hasc => e.after_c.v = e.r.v /\ e.after_c.im = e.r.im
            /\ e.mutb => e.after_b.v = e.r.v /\ e.after_b.im = e.r.im
            /\ IF e.e = "gemm"
               THEN LET m == OptRows(e, e.a, e.ta)  n == OptCols(e, e.b, e.tb)  k == OptCols(e, e.a, e.ta)
                        A == Opt(Matrix(e.a, e.a.sh[1], e.a.sh[2]), e.a.sh[1], e.a.sh[2], e.ta)
                        B == Opt(Matrix(e.b, e.b.sh[1], e.b.sh[2]), e.b.sh[1], e.b.sh[2], e.tb)
                    IN  e.r.sh = <<m, n>> /\ Matrix(e.r, m, n) = Axpy(e, A, B, m, k, n)
               ELSE LET m == e.b.sh[1]  n == e.b.sh[2]  q == e.a.sh[1]
                        B == Matrix(e.b, m, n)
                        low == e.uplo = "L" \/ (e.uplo = "" /\ e.o = "C")
                    IN  /\ e.r.sh = <<m, n>>
                        /\ IF e.e # "trsm"
                           THEN LET A == Symm(Matrix(e.a, q, q), q, low, e.e = "hemm" /\ e.cplx)
                                IN  Matrix(e.r, m, n) = (IF e.right THEN Axpy(e, B, A, m, n, n) ELSE Axpy(e, A, B, m, m, n))
                           ELSE LET T0 == Trian(Matrix(e.a, q, q), q, low)
                                    T1 == [i \in 1 .. q |-> [j \in 1 .. q |-> IF i = j /\ e.unit THEN One ELSE T0[i][j]]]
                                    A == Opt(T1, q, q, e.ta)
                                    R == ScaleM(e.alpha, B, m, n)
                                    X == IF e.right THEN MM(R, Adj(A, q), m, n, n) ELSE MM(Adj(A, q), R, m, m, n)
                                IN  QuotM(Matrix(e.r, m, n), Det(A, q), X, m, n, e.S)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF (IF e.e \in Level3 THEN Good3(e) ELSE Good(e)) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (IF e.e \in Level3 THEN "level3" ELSE IF ~Calm(e) THEN "panic" ELSE IF ~Operands(e) THEN "operands" ELSE IF ~InPlace(e) THEN "inplace"
                 ELSE IF ~ShapesOk(e) THEN "refused" ELSE "answer"))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
