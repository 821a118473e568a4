-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* Strided layouts: which of them may exist, what their predicates mean,   *)
(* and what the rearrangements used for traversal have to preserve.        *)
(* A layout is a shape, a stride per axis, and an offset.                  *)
(***************************************************************************)
EXTENDS NdArray

Empty(sh) == Prod(sh) = 0
SumOver(S, f(_)) == FoldLeft(LAMBDA a, k : a + f(k), 0, SetToSortSeq(S, <))
\* lowest and highest address
LowA(sh, st, of) == of + SumOver({k \in DOMAIN sh : st[k] < 0}, LAMBDA k : (sh[k] - 1) * st[k])
HighA(sh, st, of) == of + SumOver({k \in DOMAIN sh : st[k] > 0}, LAMBDA k : (sh[k] - 1) * st[k])
\* the documented rule: with the axes sorted by stride, the elements of the smaller strides end before the next stride
Moving(sh, st) == {k \in DOMAIN sh : sh[k] > 1 /\ st[k] # 0}
Below(sh, st, k) == {j \in Moving(sh, st) : Abs(st[j]) < Abs(st[k]) \/ (Abs(st[j]) = Abs(st[k]) /\ j < k)}
StrideRule(sh, st) ==
    Empty(sh) \/ \A k \in Moving(sh, st) : SumOver(Below(sh, st, k), LAMBDA j : (sh[j] - 1) * Abs(st[j])) < Abs(st[k])
\* which layouts may exist
Admit(sh, st, of) == /\ Len(sh) = Len(st)
                     /\ Empty(sh) \/ (LowA(sh, st, of) >= 0 /\ StrideRule(sh, st))
Bounds(sh, st, of) == IF Empty(sh) THEN <<of, of>> ELSE <<LowA(sh, st, of), HighA(sh, st, of) + 1>>
\* may it lie over a storage of n elements
Fits(sh, st, of, n) == Admit(sh, st, of) /\ Bounds(sh, st, of)[2] <= n

\* every element has its own place, apart from broadcast axes
Unbroadcast(sh, st) == [k \in DOMAIN sh |-> IF st[k] = 0 THEN Min2(1, sh[k]) ELSE sh[k]]
Distinct(sh, st, of) == NoDup(AddrSeq(Unbroadcast(sh, st), st, of))

\* predicates, by meaning
CContig(sh, st) == LET a == AddrSeq(sh, st, 0) IN \A q \in DOMAIN a : a[q] = q - 1
FContig(sh, st) == CContig(RevSeq(sh), RevSeq(st))
LastK(v, k) == SubSeq(v, Len(v) - k + 1, Len(v))
NContigC(sh, st) == IF Empty(sh) THEN Len(sh)
                    ELSE CHOOSE k \in 0 .. Len(sh) : /\ CContig(LastK(sh, k), LastK(st, k))
                                                     /\ \A j \in (k + 1) .. Len(sh) : ~CContig(LastK(sh, j), LastK(st, j))
NContigF(sh, st) == NContigC(RevSeq(sh), RevSeq(st))
\* row-major preferred: moving backwards over the axes that have a direction, strides do not decrease, starting with 1
\* (or with anything positive, when the last axis is a single element)
CPrefer(sh, st) ==
    \/ Empty(sh) \/ Len(sh) = 0
    \/ LET ax == SelectSeq([k \in 1 .. Len(sh) |-> k], LAMBDA k : sh[k] # 1)
           t == [i \in 1 .. Len(ax) |-> st[ax[i]]]
       IN  /\ \A i \in 1 .. (Len(t) - 1) : t[i] >= t[i + 1]
           /\ Len(t) > 0 => IF sh[Len(sh)] = 1 THEN t[Len(t)] >= 1 ELSE t[Len(t)] = 1
FPrefer(sh, st) == CPrefer(RevSeq(sh), RevSeq(st))
SizeNB(sh, st) == IF Empty(sh) THEN 0 ELSE Prod([k \in DOMAIN sh |-> IF st[k] = 0 THEN 1 ELSE sh[k]])

\* the same predicates as a walk over the axes, as an implementation would do it
RECURSIVE Walk(_, _, _, _)
Walk(sh, st, k, acc) == \* number of further axes, from the back, that continue a block of acc elements
    IF k = 0 THEN 0
    ELSE IF sh[k] # 1 /\ st[k] # acc THEN 0
    ELSE 1 + Walk(sh, st, k - 1, acc * sh[k])

\* ------------------------------------------------------------ traversals
\* column-major sequence of addresses of a layout given as a record
Walked(y) == AddrSeq(RevSeq(y.sh), RevSeq(y.st), y.of)
\* several layouts of one shape walked together: what is visited, as a sequence of tuples
Together(ys) == LET w == [i \in DOMAIN ys |-> Walked(ys[i])]
                IN  [q \in 1 .. Prod(ys[1].sh) |-> [i \in DOMAIN ys |-> w[i][q]]]
\* ... when each visit covers n consecutive elements (n = 0: one)
TogetherN(ys, n) == LET t == Together(ys) IN
    IF n = 0 THEN t
    ELSE [q \in 1 .. (Len(t) * n) |-> [i \in DOMAIN ys |-> t[((q - 1) \div n) + 1][i] + ((q - 1) % n)]]
Count(v, x) == Cardinality({q \in DOMAIN v : v[q] = x})
SameBag(v, w) == /\ Len(v) = Len(w)
                 /\ \/ NoDup(v) /\ Rng(v) = Rng(w)
                    \/ \A x \in Rng(v) \cup Rng(w) : Count(v, x) = Count(w, x)

\* ------------------------------------------------------------ operations on layouts (strides, not elements)
Swap(y, i, j) == LET f(k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
                 IN  [sh |-> [k \in DOMAIN y.sh |-> y.sh[f(k)]], st |-> [k \in DOMAIN y.sh |-> y.st[f(k)]], of |-> y.of]
Narrow(y, k, a, n, p) == \* n >= 1 elements of axis k, from a on, with step p
    [sh |-> [y.sh EXCEPT ![k] = n], st |-> [y.st EXCEPT ![k] = @ * p], of |-> y.of + a * y.st[k]]
Select(y, k, i) == [sh |-> RemoveIdx(y.sh, {k}), st |-> RemoveIdx(y.st, {k}), of |-> y.of + i * y.st[k]]
Diag(y, o, i, j) == \* the o-th diagonal of axes i and j becomes the last axis
    LET a == IF o < 0 THEN -o ELSE 0
        b == IF o > 0 THEN o ELSE 0
        n == Min2(y.sh[i] - a, y.sh[j] - b)
    IN  [sh |-> Append(RemoveIdx(y.sh, {i, j}), n), st |-> Append(RemoveIdx(y.st, {i, j}), y.st[i] + y.st[j]),
         of |-> y.of + a * y.st[i] + b * y.st[j]]
Insert(y, k, n) == \* a broadcast axis of length n
    [sh |-> InsertOne(y.sh, k, n), st |-> InsertOne(y.st, k, 0), of |-> y.of]
===============================================================================
