------------------------------- MODULE Reduce --------------------------------
(***************************************************************************)
(* Reductions.  Reducing a tensor over a list of axes yields, for every    *)
(* index of the remaining axes (kept in their order), one value computed   *)
(* from exactly the elements that share this index, read in row-major      *)
(* order of the reduced axes as they were named.                           *)
(***************************************************************************)
EXTENDS NdArray
NAN == 2000000001

\* offset of every index of the sub-shape sh with element weights w
Offsets(sh, w) == LET cs == CStr(sh) IN [p \in 1 .. Prod(sh) |-> Dot(UnravelW(p - 1, sh, cs), w)]

\* the split of a shape: kept shape and, for each kept place, where the reduced elements are
Split(sh, axes) ==
    LET n == Len(sh)
        ax == NormAxes(axes, n)
        keep == SelectSeq([i \in 1 .. n |-> i - 1], LAMBDA i : i \notin Rng(ax))
        cs == CStr(sh)
        Sub(s, which) == [i \in 1 .. Len(which) |-> s[which[i] + 1]]
    IN  [ok |-> AxesOk(axes, n), sh |-> Sub(sh, keep), red |-> Sub(sh, ax),
         base |-> Offsets(Sub(sh, keep), Sub(cs, keep)), step |-> Offsets(Sub(sh, ax), Sub(cs, ax))]
AllSplit(sh) == Split(sh, [i \in 1 .. Len(sh) |-> i - 1])
SplitFor(sh, ax) == IF Len(ax) = 0 THEN AllSplit(sh)
                    ELSE IF ~AxesOk(ax[1], Len(sh)) THEN [ok |-> FALSE] ELSE Split(sh, ax[1])
\* the elements reduced into place p (1-based)
Elems(v, sp, p) == [q \in 1 .. Len(sp.step) |-> v[sp.base[p] + sp.step[q] + 1]]

Fold(F(_, _), z, xs) == FoldLeft(F, z, xs)
Plus(x, y) == x + y
SumOf(xs) == Fold(Plus, 0, xs)
SqSum(xs) == Fold(LAMBDA a, x : a + x * x, 0, xs)
MinOf(xs) == Fold(Min2, xs[1], xs)
MaxOf(xs) == Fold(Max2, xs[1], xs)
FirstAt(xs, x) == CHOOSE i \in 1 .. Len(xs) : xs[i] = x /\ \A j \in 1 .. (i - 1) : xs[j] # x
Bit(b) == IF b THEN 1 ELSE 0

NeedsElements(op) == op \in {"min", "max", "argmin", "argmax", "uargmin", "uargmax"}
Exact(op) == op \notin {"mean", "var", "std", "l2_norm"}
Value(op, xs) ==
    CASE op = "sum" -> SumOf(xs)
      [] op = "prod" -> Fold(LAMBDA a, x : a * x, 1, xs)
      [] op = "min" -> MinOf(xs)
      [] op = "max" -> MaxOf(xs)
      [] op = "any" -> Bit(\E i \in DOMAIN xs : xs[i] # 0)
      [] op = "all" -> Bit(\A i \in DOMAIN xs : xs[i] # 0)
      [] op = "count_nonzero" -> Len(SelectSeq(xs, LAMBDA x : x # 0))
      [] op \in {"argmin", "uargmin"} -> FirstAt(xs, MinOf(xs)) - 1
      [] op \in {"argmax", "uargmax"} -> FirstAt(xs, MaxOf(xs)) - 1
\* numbers with a fractional part are recorded as the nearest multiple of 1/1000 (mean) or 1/100
Scaled(x, n, k) == (x \div n) * k + ((x % n) * k) \div n
Near(op, xs, r) ==
    LET n == Len(xs)
        S == SumOf(xs)
        Q == SqSum(xs)
        D == n * Q - S * S          \* n^2 times the variance, exact
        h == Scaled(D, n * n, 100)
        d4 == h * 100 + (((((D % (n * n)) * 100) % (n * n)) * 100) \div (n * n))   \* floor(10^4 var)
    IN
    CASE op = "l2_norm" -> r >= 0 /\ Max2(r - 1, 0) * Max2(r - 1, 0) <= Q * 10000 /\ Q * 10000 <= (r + 1) * (r + 1)
      [] n = 0 -> r = NAN
      [] op = "mean" -> LET m == Scaled(S, n, 1000) IN r >= m - 1 /\ r <= m + 2
      [] op = "var" -> r >= h - 1 /\ r <= h + 2
      [] op = "std" -> r >= 0 /\ Max2(r - 1, 0) * Max2(r - 1, 0) <= d4 + 1 /\ d4 <= (r + 1) * (r + 1)

\* what a reduction must return
RedShape(a, ax) == SplitFor(a.sh, ax).sh
RedOk(a, op, ax) == SplitFor(a.sh, ax).ok /\ (NeedsElements(op) => Prod(a.sh) > 0)
RedGood(a, op, ax, r) ==
    LET sp == SplitFor(a.sh, ax) IN
    /\ r.sh = sp.sh /\ Len(r.v) = Len(sp.base)
    /\ \A p \in 1 .. Len(sp.base) :
          LET xs == Elems(a.v, sp, p) IN
          CASE op \in {"uargmin", "uargmax"} -> r.v[p] = Unravel(Value(op, xs), sp.red)
            [] Exact(op) -> r.v[p] = Value(op, xs)
            [] OTHER -> Near(op, xs, r.v[p])
RedExpected(a, op, ax) == \* for reports
    LET sp == SplitFor(a.sh, ax) IN
    [sh |-> sp.sh, v |-> [p \in 1 .. Min2(4, Len(sp.base)) |->
        LET xs == Elems(a.v, sp, p) IN IF Exact(op) THEN Value(op, xs) ELSE SumOf(xs)]]
===============================================================================
