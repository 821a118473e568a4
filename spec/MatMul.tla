------------------------------- MODULE MatMul --------------------------------
(***************************************************************************)
(* Matrix products and vector dots.  In row-major convention the last two  *)
(* axes are the matrix and the leading axes broadcast as a batch; the      *)
(* column-major convention is the mirror image.  A one-dimensional operand *)
(* is a vector whose added axis vanishes from the result.                  *)
(*                                                                         *)
(* A result is described by its shape and, for every axis of it, by how    *)
(* far one step moves in either operand (both read in row-major order),    *)
(* and by the places that are multiplied and summed.                       *)
(***************************************************************************)
EXTENDS NdArray

\* weights of x (shape sx, weights wx) seen through the broadcast shape big, o the convention
BcW(sx, wx, big, o) ==
    LET d == Len(big) - Len(sx) IN
    [k \in 1 .. Len(big) |->
        LET j == IF o = "C" THEN k - d ELSE k IN
        IF j < 1 \/ j > Len(sx) THEN 0 ELSE IF sx[j] = 1 THEN 0 ELSE wx[j]]

\* ------------------------------------------------------------ matrix products
MMRow(sa, wa, sb, wb) ==
    LET na == Len(sa)
        nb == Len(sb)
    IN  IF na = 0 \/ nb = 0 THEN Bad
    ELSE
    LET ka == sa[na]
        kb == IF nb = 1 THEN sb[1] ELSE sb[nb - 1]
        ba == SubSeq(sa, 1, na - 2)
        bb == SubSeq(sb, 1, nb - 2)
        bc == BcAll(<<ba, bb>>, "C")
    IN  IF ka # kb \/ ~bc.ok THEN Bad
    ELSE
    LET rowS == IF na = 1 THEN <<>> ELSE <<sa[na - 1]>>
        colS == IF nb = 1 THEN <<>> ELSE <<sb[nb]>>
    IN [ok |-> TRUE, sh |-> bc.sh \o rowS \o colS,
        wa |-> BcW(ba, wa, bc.sh, "C") \o (IF na = 1 THEN <<>> ELSE <<wa[na - 1]>>) \o (IF nb = 1 THEN <<>> ELSE <<0>>),
        wb |-> BcW(bb, wb, bc.sh, "C") \o (IF na = 1 THEN <<>> ELSE <<0>>) \o (IF nb = 1 THEN <<>> ELSE <<wb[nb]>>),
        sa |-> [i \in 1 .. ka |-> (i - 1) * wa[na]],
        sb |-> [i \in 1 .. ka |-> (i - 1) * wb[IF nb = 1 THEN 1 ELSE nb - 1]]]
MMPlan(sa, sb, o) ==
    IF o = "C" THEN MMRow(sa, CStr(sa), sb, CStr(sb))
    ELSE LET r == MMRow(RevSeq(sb), RevSeq(CStr(sb)), RevSeq(sa), RevSeq(CStr(sa)))
         IN  IF ~r.ok THEN Bad
             ELSE [ok |-> TRUE, sh |-> RevSeq(r.sh), wa |-> RevSeq(r.wb), wb |-> RevSeq(r.wa), sa |-> r.sb, sb |-> r.sa]

\* ------------------------------------------------------------ vector dots over axes
\* places of the elements named by axes ax (zero-based, in the order named)
Steps(sh, w, ax) ==
    LET ks == [i \in 1 .. Len(ax) |-> sh[ax[i] + 1]]
        ws == [i \in 1 .. Len(ax) |-> w[ax[i] + 1]]
        cs == CStr(ks)
    IN  [p \in 1 .. Prod(ks) |-> Dot(UnravelW(p - 1, ks, cs), ws)]
Without(s, n, ax) == LET keep == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : (i - 1) \notin Rng(ax))
                     IN  [i \in 1 .. Len(keep) |-> s[keep[i]]]
VDAxes(kind, ax, n, m) == \* the axes of an operand of rank n; m is the smaller rank
    CASE kind = 0 -> [ok |-> m >= 1, ax |-> <<n - 1>>]
      [] kind = 1 -> [ok |-> AxisOk(ax[1], m), ax |-> <<NormAx(ax[1], n)>>]
      [] OTHER -> [ok |-> AxesOk(ax, n), ax |-> NormAxes(ax, n)]
VDPlan(sa, sb, kind, axa, axb, o) ==
    LET m == Min2(Len(sa), Len(sb))
        x == VDAxes(kind, axa, Len(sa), m)
        y == VDAxes(kind, IF kind = 1 THEN axa ELSE axb, Len(sb), m)
    IN  IF ~x.ok \/ ~y.ok THEN Bad
    ELSE
    LET ka == [i \in 1 .. Len(x.ax) |-> sa[x.ax[i] + 1]]
        kb == [i \in 1 .. Len(y.ax) |-> sb[y.ax[i] + 1]]
        ra == Without(sa, Len(sa), x.ax)
        rb == Without(sb, Len(sb), y.ax)
        bc == BcAll(<<ra, rb>>, o)
    IN  IF ka # kb \/ ~bc.ok THEN Bad
        ELSE [ok |-> TRUE, sh |-> bc.sh,
              wa |-> BcW(ra, Without(CStr(sa), Len(sa), x.ax), bc.sh, o),
              wb |-> BcW(rb, Without(CStr(sb), Len(sb), y.ax), bc.sh, o),
              sa |-> Steps(sa, CStr(sa), x.ax), sb |-> Steps(sb, CStr(sb), y.ax)]

\* ------------------------------------------------------------ values
\* sign is -1 where the first operand is conjugated
Re(t, i) == t.v[i]
Im(t, i) == IF Len(t.im) = 0 THEN 0 ELSE t.im[i]
Value(a, b, pl, p, sign) == \* the value at place p (1-based) of the result: <<re, im>>
    LET idx == UnravelW(p - 1, pl.sh, CStr(pl.sh))
        pa == Dot(idx, pl.wa) + 1
        pb == Dot(idx, pl.wb) + 1
        n == Len(pl.sa)
    IN  IF Len(a.im) = 0 THEN <<FoldLeft(LAMBDA z, i : z + a.v[pa + pl.sa[i]] * b.v[pb + pl.sb[i]], 0, [i \in 1 .. n |-> i]), 0>>
        ELSE FoldLeft(LAMBDA z, i :
                <<z[1] + a.v[pa + pl.sa[i]] * b.v[pb + pl.sb[i]] - sign * a.im[pa + pl.sa[i]] * b.im[pb + pl.sb[i]],
                  z[2] + a.v[pa + pl.sa[i]] * b.im[pb + pl.sb[i]] + sign * a.im[pa + pl.sa[i]] * b.v[pb + pl.sb[i]]>>,
                <<0, 0>>, [i \in 1 .. n |-> i])
Values(a, b, pl, sign) == [p \in 1 .. Prod(pl.sh) |-> Value(a, b, pl, p, sign)]
===============================================================================
