------------------------------ MODULE MC_MatMul -------------------------------
(***************************************************************************)
(* Matrix products over a small universe of shapes, and the way an         *)
(* implementation may compute them.                                        *)
(*                                                                         *)
(* What = "plan": every pair of shapes is a transition from the empty      *)
(* situation; the plan of the product is compared with the textbook        *)
(* formula on logical indices, with the product of the transposes, and     *)
(* with the vector dot; the pairs are emitted for replay.                  *)
(*                                                                         *)
(* What = "block": C := alpha A B + beta C computed by tiles.  The output  *)
(* is first scaled, cell by cell, then every (row, column, depth) tile is  *)
(* accumulated exactly once, in any order and by any number of workers.    *)
(* The result is the definition's in every final state.  The wrong variant *)
(* scales with beta in every depth tile.                                   *)
(***************************************************************************)
EXTENDS MatMul
CONSTANTS MaxRank, MaxDim, M, N, K, BM, BN, BK, Alpha, Beta, Wrong, What, Emit
VARIABLES req, c, todo

Shapes(r, d) == UNION {[1 .. n -> 0 .. d] : n \in 0 .. r}
Val(sh, base) == [sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> ((base + p * p) % 7) - 3], im |-> <<>>]
\* ---------------------------------------------------------------- plans
Pairs == {<<"mm", a, b>> : a \in Shapes(MaxRank, MaxDim), b \in Shapes(MaxRank, MaxDim)}
Dots == {<<"vd", a, b, x>> : a \in Shapes(MaxRank - 1, MaxDim), b \in Shapes(MaxRank - 1, MaxDim), x \in -MaxRank .. MaxRank}
None == <<"none">>
\* ---------------------------------------------------------------- tiles
Tiles == {<<i, j, k>> : i \in 0 .. (CeilDiv(M, BM) - 1), j \in 0 .. (CeilDiv(N, BN) - 1), k \in 0 .. (CeilDiv(K, BK) - 1)}
A == Val(<<M, K>>, 1)
B == Val(<<K, N>>, 5)
C0 == Val(<<M, N>>, 9)
InTile(p, t) == (p - 1) \div N >= t[1] * BM /\ (p - 1) \div N < (t[1] + 1) * BM /\ (p - 1) % N >= t[2] * BN /\ (p - 1) % N < (t[2] + 1) * BN
Part(p, t) == LET i == (p - 1) \div N
                  j == (p - 1) % N
              IN  SumSeq([q \in 1 .. (Min2(K, (t[3] + 1) * BK) - t[3] * BK) |->
                         A.v[i * K + t[3] * BK + q] * B.v[(t[3] * BK + q - 1) * N + j + 1]])
Scaled == <<"scale">>
Init == /\ req = None
        /\ c = IF What = "block" THEN C0.v ELSE <<>>
        /\ todo = IF What = "block" THEN Tiles \cup (IF Wrong THEN {} ELSE {Scaled}) ELSE {}
Next ==
    IF What = "plan"
    THEN req = None /\ req' \in Pairs \cup Dots /\ UNCHANGED <<c, todo>>
    ELSE /\ req' = req
         /\ \E t \in todo :
              /\ t # Scaled => Scaled \notin todo
              /\ todo' = todo \ {t}
              /\ c' = IF t = Scaled THEN [p \in DOMAIN c |-> IF Beta = 0 THEN 0 ELSE Beta * c[p]]
                      ELSE [p \in DOMAIN c |-> IF InTile(p, t) THEN (IF Wrong THEN Beta * c[p] ELSE c[p]) + Alpha * Part(p, t) ELSE c[p]]
Spec == Init /\ [][Next]_<<req, c, todo>>

\* ------------------------------------------------------------ what is checked
Tiled == What = "block" /\ todo = {} =>
    LET pl == MMPlan(<<M, K>>, <<K, N>>, "C") IN
    c = [p \in 1 .. M * N |-> Alpha * Value(A, B, pl, p, 1)[1] + Beta * C0.v[p]]
\* textbook: fill the shapes up to matrices and batches, sum over the shared index
Textbook(sa, sb) ==
    LET a2 == IF Len(sa) = 1 THEN <<1>> \o sa ELSE sa
        b2 == IF Len(sb) = 1 THEN sb \o <<1>> ELSE sb
        ba == SubSeq(a2, 1, Len(a2) - 2)
        bb == SubSeq(b2, 1, Len(b2) - 2)
        bc == BcAll(<<ba, bb>>, "C")
    IN  IF Len(sa) = 0 \/ Len(sb) = 0 THEN Bad
        ELSE IF a2[Len(a2)] # b2[Len(b2) - 1] \/ ~bc.ok THEN Bad
        ELSE LET full == bc.sh \o <<a2[Len(a2) - 1], b2[Len(b2)]>>
                 x == Val(sa, 1)
                 y == Val(sb, 5)
                 n == Len(full)
                 CellOf(idx, bs, i, j, sh) == \* element [batch, i, j] of an operand
                     LET nb == Len(bs)
                         d == (n - 2) - nb
                     IN  Ravel([q \in 1 .. nb |-> IF bs[q] = 1 THEN 0 ELSE idx[q + d]] \o <<i, j>>, sh) + 1
             IN  [ok |-> TRUE,
                  sh |-> SelectSeq([q \in 1 .. n |-> IF (q = n - 1 /\ Len(sa) = 1) \/ (q = n /\ Len(sb) = 1) THEN -1 ELSE full[q]], LAMBDA z : z >= 0),
                  v |-> [p \in 1 .. Prod(full) |->
                          LET idx == Unravel(p - 1, full)
                          IN  SumSeq([k \in 1 .. a2[Len(a2)] |-> x.v[CellOf(idx, ba, idx[n - 1], k - 1, a2)] * y.v[CellOf(idx, bb, k - 1, idx[n], b2)]])]]
Got(sa, sb, o) ==
    LET pl == MMPlan(sa, sb, o) IN
    IF ~pl.ok THEN Bad ELSE [ok |-> TRUE, sh |-> pl.sh, v |-> [p \in 1 .. Prod(pl.sh) |-> Value(Val(sa, 1), Val(sb, 5), pl, p, 1)[1]]]
RowMajor == req[1] = "mm" => Got(req[2], req[3], "C") = Textbook(req[2], req[3])
\* the column-major product of x and y is the row-major product of the reversed y and the reversed x, reversed
RevVal(t) == [sh |-> RevSeq(t.sh), v |-> [p \in 1 .. Prod(t.sh) |-> t.v[Ravel(RevSeq(Unravel(p - 1, RevSeq(t.sh))), t.sh) + 1]], im |-> <<>>]
Mirror == req[1] = "mm" =>
    LET f == MMPlan(req[2], req[3], "F")
        x == Val(req[2], 1)
        y == Val(req[3], 5)
        g == MMPlan(RevSeq(req[3]), RevSeq(req[2]), "C")
    IN  /\ f.ok = g.ok
        /\ f.ok => /\ f.sh = RevSeq(g.sh)
                   /\ [sh |-> f.sh, v |-> [p \in 1 .. Prod(f.sh) |-> Value(x, y, f, p, 1)[1]], im |-> <<>>]
                      = RevVal([sh |-> g.sh, v |-> [p \in 1 .. Prod(g.sh) |-> Value(RevVal(y), RevVal(x), g, p, 1)[1]], im |-> <<>>])
\* the dot of two vectors is their product; a dot over one axis contracts it
DotIsProduct == req[1] = "vd" /\ Len(req[2]) = 1 /\ Len(req[3]) = 1 =>
    LET p == VDPlan(req[2], req[3], 0, <<>>, <<>>, "C")
        q == MMPlan(req[2], req[3], "C")
    IN  p = q
DotShape == req[1] = "vd" =>
    LET p == VDPlan(req[2], req[3], 1, <<req[4]>>, <<>>, "C")
        p2 == VDPlan(req[2], req[3], 1, <<req[4]>>, <<>>, "F")
        m == Min2(Len(req[2]), Len(req[3]))
    IN  /\ (~AxisOk(req[4], m) => ~p.ok /\ ~p2.ok)
        /\ (p.ok => Len(p.sh) = Max2(Len(req[2]), Len(req[3])) - 1 /\ Len(p.sa) = Len(p.sb)
                    /\ \A z \in 1 .. Prod(p.sh) : LET i == Unravel(z - 1, p.sh) IN
                          \A k \in DOMAIN p.sa : Dot(i, p.wa) + p.sa[k] < Prod(req[2]) /\ Dot(i, p.wb) + p.sb[k] < Prod(req[3]))
Txt(q) == IF q = <<>> THEN "_" ELSE FoldLeft(LAMBDA a, y : IF a = "" THEN ToString(y) ELSE a \o "," \o ToString(y), "", q)
EmitReq == Emit /\ req # None => PrintT("REQ " \o req[1] \o " " \o Txt(req[2]) \o " " \o Txt(req[3]) \o (IF req[1] = "vd" THEN " " \o ToString(req[4]) ELSE ""))
===============================================================================
