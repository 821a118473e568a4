-------------------------------- MODULE Create --------------------------------
(***************************************************************************)
(* Tensors made from nothing, from numbers, from other tensors' shapes and *)
(* from existing memory.                                                   *)
(***************************************************************************)
EXTENDS NdArray

\* ---------------------------------------------------------------- contents
\* start, start + step, ... before stop
ArangeLen(start, stop, step) ==
    LET n == IF step > 0 THEN CeilDiv(stop - start, step) ELSE CeilDiv(start - stop, -step)
    IN  IF n < 0 THEN 0 ELSE n
Arange(start, stop, step) == [i \in 1 .. ArangeLen(start, stop, step) |-> start + (i - 1) * step]
\* n evenly spaced numbers; everything multiplied by LinDen
LinDen(n, endpoint) == IF n < 2 THEN 1 ELSE IF endpoint THEN n - 1 ELSE n
Linspace(start, stop, n, endpoint) ==
    LET d == LinDen(n, endpoint) IN [i \in 1 .. n |-> start * d + (i - 1) * (IF n < 2 THEN 0 ELSE stop - start)]
\* ones on diagonal k
Eye(n, m, k) == [p \in 1 .. n * m |-> IF ((p - 1) % m) - ((p - 1) \div m) = k THEN 1 ELSE 0]
Const(sh, x) == [p \in 1 .. Prod(sh) |-> x]

\* ---------------------------------------------------------------- layouts
\* the strides of a layout do not matter along axes of length 1 or when there is no element
SameStrides(sh, x, y) == Prod(sh) = 0 \/ \A k \in DOMAIN sh : sh[k] > 1 => x[k] = y[k]
Contig(sh, order) == IF order = "C" THEN CStr(sh) ELSE FStr(sh)
IsContig(sh, st, order) == SameStrides(sh, st, Contig(sh, order))
\* dense: the elements fill their span
Dense(sh, st) ==
    \/ Prod(sh) = 0
    \/ \E p \in [1 .. Len(sh) -> 1 .. Len(sh)] :
          /\ \A i, j \in DOMAIN sh : i # j => p[i] # p[j]
          /\ LET q == [i \in DOMAIN sh |-> sh[p[i]]] IN SameStrides(q, [i \in DOMAIN sh |-> st[p[i]]], FStr(q))
\* axes keep their nesting: a longer stride stays longer
KeepsNesting(sh, was, st) ==
    Prod(sh) = 0 \/ \A i, j \in DOMAIN sh : (sh[i] > 1 /\ sh[j] > 1 /\ was[i] # 0 /\ was[j] # 0 /\ Abs(was[i]) < Abs(was[j])) => st[i] < st[j]
\* the layout of a new tensor made like one with strides was
LikeLayout(sh, was, order, st) ==
    CASE order \in {"C", "F"} -> IsContig(sh, st, order)
      [] order = "A" -> IF IsContig(sh, was, "C") THEN IsContig(sh, st, "C")
                        ELSE IF IsContig(sh, was, "F") THEN IsContig(sh, st, "F")
                        ELSE IsContig(sh, st, "C") \/ IsContig(sh, st, "F")
      [] OTHER -> Dense(sh, st) /\ KeepsNesting(sh, was, st)
\* every address lies in a buffer of the given length
Fits(sh, st, of, len) ==
    IF Prod(sh) = 0 THEN of <= len
    ELSE LET lo == of + SumSeq([k \in DOMAIN sh |-> IF st[k] < 0 THEN st[k] * (sh[k] - 1) ELSE 0])
             hi == of + SumSeq([k \in DOMAIN sh |-> IF st[k] > 0 THEN st[k] * (sh[k] - 1) ELSE 0])
         IN  lo >= 0 /\ hi < len
===============================================================================
