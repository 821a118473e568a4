------------------------------- MODULE NdArray -------------------------------
(***************************************************************************)
(* The mathematics of n-dimensional arrays: shapes, index arithmetic, and  *)
(* the meaning of every array operation that the library offers, stated on *)
(* logical indices only (no strides, no buffers).  Every other module and  *)
(* every conformance check refers to these definitions.                    *)
(*                                                                         *)
(* Conventions.  A shape is a sequence of naturals.  A logical index is a  *)
(* sequence of naturals, zero-based.  A position p in 0..Prod(sh)-1 is the *)
(* row-major (last index fastest) rank of a logical index.  Axis numbers   *)
(* in arguments are zero-based and may be negative, as in the API.         *)
(* Optional arguments are sequences of length 0 (absent) or 1 (present).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* ------------------------------------------------------------ sequences
Rng(s) == {s[i] : i \in DOMAIN s}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
Idx0(n) == 0 .. (n - 1)
RevSeq(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
Opt(o, d) == IF Len(o) = 0 THEN d ELSE o[1]
RemoveIdx(s, S) == \* the subsequence of s without the (1-based) places in S
    LET keep == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : i \notin S)
    IN  [i \in 1 .. Len(keep) |-> s[keep[i]]]
InsertOne(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
CeilDiv(a, b) == (a + b - 1) \div b    \* b > 0

\* ------------------------------------------------------------ index arithmetic
\* row-major and column-major element counts per unit step of every axis
CStr(sh) == [k \in 1 .. Len(sh) |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
FStr(sh) == [k \in 1 .. Len(sh) |-> Prod(SubSeq(sh, 1, k - 1))]
Dot(idx, st) == FoldLeft(LAMBDA a, k : a + idx[k] * st[k], 0, [k \in 1 .. Len(idx) |-> k])
UnravelW(p, sh, st) == [k \in 1 .. Len(sh) |-> (p \div st[k]) % sh[k]]
Unravel(p, sh) == UnravelW(p, sh, CStr(sh))
Ravel(idx, sh) == Dot(idx, CStr(sh))
\* rank of a logical index when read in order o ("C" row-major, "F" column-major)
Rank(idx, sh, o) == IF o = "C" THEN Ravel(idx, sh) ELSE Dot(idx, FStr(sh))
AtRank(r, sh, o) == IF o = "C" THEN Unravel(r, sh) ELSE UnravelW(r, sh, FStr(sh))
\* row-major position of the element with rank r in order o
PosAtRank(r, sh, o) == IF o = "C" THEN r ELSE Ravel(AtRank(r, sh, o), sh)
ValidIdx(idx, sh) == Len(idx) = Len(sh) /\ \A k \in DOMAIN idx : idx[k] >= 0 /\ idx[k] < sh[k]

\* addresses of a strided layout, in row-major order of the logical index
AddrSeq(sh, st, of) ==
    LET cs == CStr(sh)
    IN  [q \in 1 .. Prod(sh) |-> of + Dot(UnravelW(q - 1, sh, cs), st)]

\* ------------------------------------------------------------ axes
AxisOk(a, n) == a >= -n /\ a < n
NormAx(a, n) == IF a < 0 THEN a + n ELSE a
AxesOk(ax, n) == /\ \A i \in DOMAIN ax : AxisOk(ax[i], n)
                 /\ NoDup([i \in 1 .. Len(ax) |-> NormAx(ax[i], n)])
NormAxes(ax, n) == [i \in 1 .. Len(ax) |-> NormAx(ax[i], n)]

\* ------------------------------------------------------------ views
\* A view operation on a shape: [ok, sh, src] where src maps each new position (0-based)
\* to the position of the source it denotes.
Bad == [ok |-> FALSE]
MkView(newsh, oldsh, OldIdx(_)) ==
    LET cs == CStr(newsh)
        os == CStr(oldsh)
    IN [ok |-> TRUE, sh |-> newsh,
        src |-> [p \in 0 .. (Prod(newsh) - 1) |-> Dot(OldIdx(UnravelW(p, newsh, cs)), os)]]

\* slice(start, stop, step) on an axis of length n: the denoted positions (NumPy basic slicing)
SliceStart(s, n) ==
    LET p == Opt(s.p, 1) IN
    IF Len(s.a) = 0 THEN (IF p > 0 THEN 0 ELSE n - 1)
    ELSE LET a == IF s.a[1] < 0 THEN s.a[1] + n ELSE s.a[1]
         IN  IF p > 0 THEN Min2(Max2(a, 0), n) ELSE Min2(Max2(a, -1), n - 1)
SliceStop(s, n) ==
    LET p == Opt(s.p, 1) IN
    IF Len(s.o) = 0 THEN (IF p > 0 THEN n ELSE -1)
    ELSE LET o == IF s.o[1] < 0 THEN s.o[1] + n ELSE s.o[1]
         IN  IF p > 0 THEN Min2(Max2(o, 0), n) ELSE Min2(Max2(o, -1), n - 1)
SliceLen(s, n) ==
    LET p == Opt(s.p, 1)
        a == SliceStart(s, n)
        o == SliceStop(s, n)
    IN  IF p > 0 THEN (IF o > a THEN CeilDiv(o - a, p) ELSE 0)
        ELSE (IF a > o THEN CeilDiv(a - o, -p) ELSE 0)

\* index items: [k |-> "i", v], [k |-> "s", a, o, p], [k |-> "n"], [k |-> "e"]
Consumes(it) == it.k \in {"i", "s"}
FullSlice == [k |-> "s", a |-> <<>>, o |-> <<>>, p |-> <<>>]
SliceOp(sh, items) ==
    LET n == Len(sh)
        used == Len(SelectSeq(items, Consumes))
        els == SelectSeq([i \in 1 .. Len(items) |-> i], LAMBDA i : items[i].k = "e")
    IN
    IF Len(els) > 1 \/ used > n THEN Bad ELSE
    LET fill == [i \in 1 .. (n - used) |-> FullSlice]
        ex == IF Len(els) = 0 THEN items \o fill
              ELSE SubSeq(items, 1, els[1] - 1) \o fill \o SubSeq(items, els[1] + 1, Len(items))
        \* axis consumed by item j
        axof == [j \in 1 .. Len(ex) |-> Cardinality({i \in 1 .. j : Consumes(ex[i])})]
        jof == [a \in 1 .. n |-> CHOOSE j \in 1 .. Len(ex) : Consumes(ex[j]) /\ axof[j] = a]
        okItem(j) == CASE ex[j].k = "i" -> AxisOk(ex[j].v, sh[axof[j]])
                       [] ex[j].k = "s" -> Opt(ex[j].p, 1) # 0
                       [] OTHER -> TRUE
    IN
    IF \E j \in 1 .. Len(ex) : ~okItem(j) THEN Bad ELSE
    LET outs == SelectSeq([j \in 1 .. Len(ex) |-> j], LAMBDA j : ex[j].k # "i")
        placeOf == [j \in Rng(outs) |-> CHOOSE q \in 1 .. Len(outs) : outs[q] = j]
        newsh == [q \in 1 .. Len(outs) |->
                    IF ex[outs[q]].k = "n" THEN 1 ELSE SliceLen(ex[outs[q]], sh[axof[outs[q]]])]
        st == [a \in 1 .. n |-> IF ex[jof[a]].k = "i" THEN NormAx(ex[jof[a]].v, sh[a])
                                ELSE SliceStart(ex[jof[a]], sh[a])]
        sp == [a \in 1 .. n |-> IF ex[jof[a]].k = "i" THEN 0 ELSE Opt(ex[jof[a]].p, 1)]
        pl == [a \in 1 .. n |-> IF ex[jof[a]].k = "i" THEN 0 ELSE placeOf[jof[a]]]
    IN  MkView(newsh, sh, LAMBDA idx :
            [a \in 1 .. n |-> IF pl[a] = 0 THEN st[a] ELSE st[a] + sp[a] * idx[pl[a]]])

PermuteOp(sh, perm) == \* perm is 1-based, new axis k comes from old axis perm[k]
    LET n == Len(sh)
        inv == [a \in 1 .. n |-> CHOOSE k \in 1 .. n : perm[k] = a]
    IN  MkView([k \in 1 .. n |-> sh[perm[k]]], sh, LAMBDA idx : [a \in 1 .. n |-> idx[inv[a]]])
ReverseAxesOp(sh) == PermuteOp(sh, RevSeq([i \in 1 .. Len(sh) |-> i]))
TransposeOp(sh, none, ax) ==
    IF none THEN ReverseAxesOp(sh)
    ELSE IF Len(ax) # Len(sh) \/ ~AxesOk(ax, Len(sh)) THEN Bad
    ELSE PermuteOp(sh, [k \in 1 .. Len(sh) |-> NormAx(ax[k], Len(sh)) + 1])
SwapAxesOp(sh, a, b) ==
    IF ~AxisOk(a, Len(sh)) \/ ~AxisOk(b, Len(sh)) THEN Bad
    ELSE LET x == NormAx(a, Len(sh)) + 1
             y == NormAx(b, Len(sh)) + 1
         IN  PermuteOp(sh, [k \in 1 .. Len(sh) |-> IF k = x THEN y ELSE IF k = y THEN x ELSE k])
MoveAxisOp(sh, srcs, dsts) ==
    LET n == Len(sh) IN
    IF ~AxesOk(srcs, n) \/ ~AxesOk(dsts, n) \/ Len(srcs) # Len(dsts) THEN Bad
    ELSE LET s == NormAxes(srcs, n)
             d == NormAxes(dsts, n)
             rest == SelectSeq([i \in 1 .. n |-> i - 1], LAMBDA i : i \notin Rng(s))
             freeplaces == SelectSeq([i \in 1 .. n |-> i - 1], LAMBDA i : i \notin Rng(d))
         IN  PermuteOp(sh, [k \in 1 .. n |->
                IF (k - 1) \in Rng(d) THEN s[CHOOSE q \in 1 .. Len(d) : d[q] = k - 1] + 1
                ELSE rest[CHOOSE q \in 1 .. Len(freeplaces) : freeplaces[q] = k - 1] + 1])
FlipOp(sh, none, ax) ==
    LET n == Len(sh) IN
    IF ~none /\ ~AxesOk(ax, n) THEN Bad
    ELSE LET fl == IF none THEN 1 .. n ELSE {NormAx(ax[i], n) + 1 : i \in DOMAIN ax}
         IN  MkView(sh, sh, LAMBDA idx :
                [a \in 1 .. n |-> IF a \in fl THEN sh[a] - 1 - idx[a] ELSE idx[a]])
ExpandDimsOp(sh, ax) ==
    LET m == Len(sh) + Len(ax) IN
    IF ~AxesOk(ax, m) THEN Bad
    ELSE LET new == {NormAx(ax[i], m) + 1 : i \in DOMAIN ax}
             old == SelectSeq([k \in 1 .. m |-> k], LAMBDA k : k \notin new)
             at == [k \in Rng(old) |-> CHOOSE q \in 1 .. Len(old) : old[q] = k]
         IN  MkView([k \in 1 .. m |-> IF k \in new THEN 1 ELSE sh[at[k]]], sh,
                    LAMBDA idx : [a \in 1 .. Len(sh) |-> idx[old[a]]])
DropAxes(sh, S) == \* S: 1-based axes of length one
    LET keep == SelectSeq([k \in 1 .. Len(sh) |-> k], LAMBDA k : k \notin S)
        at == [a \in Rng(keep) |-> CHOOSE q \in 1 .. Len(keep) : keep[q] = a]
    IN  MkView([q \in 1 .. Len(keep) |-> sh[keep[q]]], sh,
               LAMBDA idx : [a \in 1 .. Len(sh) |-> IF a \in S THEN 0 ELSE idx[at[a]]])
SqueezeOp(sh, none, ax) ==
    LET n == Len(sh) IN
    IF none THEN DropAxes(sh, {k \in 1 .. n : sh[k] = 1})
    ELSE IF ~AxesOk(ax, n) THEN Bad
    ELSE IF \E i \in DOMAIN ax : sh[NormAx(ax[i], n) + 1] # 1 THEN Bad
    ELSE DropAxes(sh, {NormAx(ax[i], n) + 1 : i \in DOMAIN ax})
DiagonalOp(sh, off, a1, a2) ==
    LET n == Len(sh) IN
    IF n < 2 \/ ~AxisOk(a1, n) \/ ~AxisOk(a2, n) THEN Bad ELSE
    LET x == NormAx(a1, n) + 1
        y == NormAx(a2, n) + 1
    IN
    IF x = y THEN Bad ELSE
    LET r0 == IF off < 0 THEN -off ELSE 0
        c0 == IF off > 0 THEN off ELSE 0
        len == Max2(0, Min2(sh[x] - r0, sh[y] - c0))
        rest == SelectSeq([k \in 1 .. n |-> k], LAMBDA k : k # x /\ k # y)
        newsh == [q \in 1 .. (n - 1) |-> IF q = n - 1 THEN len ELSE sh[rest[q]]]
        at == [a \in Rng(rest) |-> CHOOSE q \in 1 .. Len(rest) : rest[q] = a]
    IN  MkView(newsh, sh, LAMBDA idx : [a \in 1 .. n |->
            IF a = x THEN r0 + idx[n - 1] ELSE IF a = y THEN c0 + idx[n - 1] ELSE idx[at[a]]])

\* ------------------------------------------------------------ broadcasting
\* pad with ones: at the front in row-major mode, at the back in column-major mode
PadTo(sh, n, o) == LET ones == [i \in 1 .. (n - Len(sh)) |-> 1]
                   IN  IF o = "C" THEN ones \o sh ELSE sh \o ones
BcOk2(a, b, o) ==
    LET n == Max2(Len(a), Len(b))
        x == PadTo(a, n, o)
        y == PadTo(b, n, o)
    IN  \A k \in 1 .. n : x[k] = y[k] \/ x[k] = 1 \/ y[k] = 1
BcShape2(a, b, o) ==
    LET n == Max2(Len(a), Len(b))
        x == PadTo(a, n, o)
        y == PadTo(b, n, o)
    IN  [k \in 1 .. n |-> IF x[k] = 1 THEN y[k] ELSE x[k]]
RECURSIVE BcAll(_, _)
BcAll(shs, o) == \* [ok, sh]
    IF Len(shs) = 0 THEN [ok |-> TRUE, sh |-> <<>>]
    ELSE IF Len(shs) = 1 THEN [ok |-> TRUE, sh |-> shs[1]]
    ELSE IF ~BcOk2(shs[1], shs[2], o) THEN [ok |-> FALSE, sh |-> <<>>]
    ELSE BcAll(<<BcShape2(shs[1], shs[2], o)>> \o SubSeq(shs, 3, Len(shs)), o)
\* position in a tensor of shape sh of the element used at position p of the broadcast shape big
BcPos(p, big, sh, o) ==
    LET n == Len(big)
        x == PadTo(sh, n, o)
        idx == Unravel(p, big)
        cs == CStr(x)
    IN  Dot([k \in 1 .. n |-> IF x[k] = 1 THEN 0 ELSE idx[k]], cs)
BroadcastToOp(sh, big, o) ==
    IF Len(sh) > Len(big) \/ ~BcOk2(sh, big, o) THEN Bad
    ELSE IF BcShape2(sh, big, o) # big THEN Bad
    ELSE [ok |-> TRUE, sh |-> big, src |-> [p \in 0 .. (Prod(big) - 1) |-> BcPos(p, big, sh, o)]]

\* ------------------------------------------------------------ reshape
\* substitute one -1 in the requested shape; a negative product never occurs elsewhere
ReshapeTarget(req, size) == \* [ok, sh]
    LET neg == {i \in DOMAIN req : req[i] = -1}
        other == \E i \in DOMAIN req : req[i] < -1
        known == Prod([i \in 1 .. Len(req) |-> IF req[i] = -1 THEN 1 ELSE req[i]])
    IN  IF other \/ Cardinality(neg) > 1 THEN [ok |-> FALSE, sh |-> <<>>]
        ELSE IF neg = {} THEN [ok |-> known = size, sh |-> req]
        ELSE IF known = 0 \/ size % Max2(known, 1) # 0 THEN [ok |-> FALSE, sh |-> <<>>]
        ELSE [ok |-> TRUE, sh |-> [i \in 1 .. Len(req) |-> IF req[i] = -1 THEN size \div known ELSE req[i]]]
\* the element at rank r (order o) of the new shape is the element at rank r of the old one
ReshapeSrc(oldsh, newsh, o) ==
    [p \in 0 .. (Prod(newsh) - 1) |->
        IF o = "C" THEN p ELSE PosAtRank(Rank(Unravel(p, newsh), newsh, o), oldsh, o)]
\* a sequence of addresses (row-major order of shape sh) is realisable by strides
Affine(ad, sh) ==
    IF Prod(sh) = 0 THEN TRUE ELSE
    LET cs == CStr(sh)
        st == [k \in 1 .. Len(sh) |-> IF sh[k] = 1 THEN 0 ELSE ad[cs[k] + 1] - ad[1]]
    IN  \A p \in 0 .. (Prod(sh) - 1) : ad[p + 1] = ad[1] + Dot(UnravelW(p, sh, cs), st)
=============================================================================
