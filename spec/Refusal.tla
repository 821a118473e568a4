------------------------------- MODULE Refusal -------------------------------
(***************************************************************************)
(* Which requests are answered and which are refused.                      *)
(*                                                                         *)
(* Verdict(op, a, ins, o, how) is                                          *)
(*    [w |-> "yes", outs |-> ...]  the request means something: it is      *)
(*                                 answered, with these arrays             *)
(*    [w |-> "no"]                 it means nothing: it is refused         *)
(*    [w |-> "any"]                the documentation leaves it open        *)
(* Numbers in requests are clamped to +-Lim, which is beyond every size    *)
(* of an operand; MC_Refusal checks that this loses nothing.               *)
(***************************************************************************)
EXTENDS Mirror

Big == 1000000
Yes(x) == [w |-> "yes", outs |-> x]
No == [w |-> "no", outs |-> <<>>]
AnyW == [w |-> "any", outs |-> <<>>]
Of(x) == IF x.ok THEN Yes(x.outs) ELSE No
Arr(sh, v) == [sh |-> sh, v |-> v]
Val1(sh, f(_)) == [sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> f(p - 1)]]
HasBig(sh) == \E i \in DOMAIN sh : sh[i] >= Big
HasZero(sh) == \E i \in DOMAIN sh : sh[i] = 0

\* a shape no memory holds: empty if an axis is, otherwise refused
NewOf(sh, v(_)) == IF HasZero(sh) THEN Yes(<<Arr(sh, <<>>)>>) ELSE IF HasBig(sh) THEN No ELSE Yes(<<Val1(sh, v)>>)
Reshaped(t, a, o) ==
    IF a.none THEN No
    ELSE IF \E i \in DOMAIN a.sh : a.sh[i] < -1 THEN No
    ELSE IF Cardinality({i \in DOMAIN a.sh : a.sh[i] = -1}) > 1 THEN No
    ELSE IF HasBig(a.sh) THEN IF Prod(t.sh) > 0 THEN No ELSE AnyW
    ELSE Of(Do("reshape", a, <<t>>, o))
Broadcasted(t, a, o) ==
    IF ~HasBig(a.sh) THEN Of(Do("broadcast", a, <<t>>, o))
    ELSE IF Len(t.sh) > Len(a.sh) THEN No
    ELSE IF \E k \in DOMAIN a.sh : LET p == PadTo(t.sh, Len(a.sh), o) IN p[k] # 1 /\ p[k] # a.sh[k] THEN No
    ELSE AnyW
Mat2(op, ins, o) == Do("matmul", [n |-> 0], ins, o)
Repeated(x, sh, o) == [sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> x.v[BcPos(p - 1, sh, x.sh, o) + 1]]]
IterOrders == <<"C", "F", "B", "K", "A", "G">>
Flat(t, ord) == Arr(<<Prod(t.sh)>>, [r \in 1 .. Prod(t.sh) |-> t.v[PosAtRank(r - 1, t.sh, ord) + 1]])
\* the slots of the leading axes, in row-major order of the named axes, each with what remains
AxesParts(t, ax) ==
    LET n == Len(t.sh)
        nx == NormAxes(ax, n)
        os == [i \in DOMAIN nx |-> t.sh[nx[i] + 1]]
        cs == CStr(t.sh)
        ow == [i \in DOMAIN nx |-> cs[nx[i] + 1]]
        is == MM!Without(t.sh, n, nx)
        iw == MM!Without(cs, n, nx)
    IN  [p \in 1 .. Prod(os) |->
            LET base == Dot(UnravelW(p - 1, os, CStr(os)), ow)
            IN  [sh |-> is, v |-> [q \in 1 .. Prod(is) |-> t.v[base + Dot(UnravelW(q - 1, is, CStr(is)), iw) + 1]]]]

FillOf(how) == LET k == how % 4 IN IF k = 0 THEN 0 ELSE IF k = 1 THEN 1 ELSE 3
Verdict(op, a, ins, o, how) ==
    LET t == ins[1] IN
    CASE op \in {"transpose", "flip", "squeeze", "swapaxes", "mtrans", "slice"} -> Of(Do(op, a, ins, o))
      [] op \in {"expand"} -> IF a.none THEN No ELSE Of(Do("expand", a, ins, o))
      [] op = "moveaxis" -> IF a.none THEN No ELSE Of(Do(op, a, ins, o))
      [] op = "diagonal" -> Of(Do(op, IF (how % 2) = 1 THEN [a EXCEPT !.a1 = <<>>, !.a2 = <<>>] ELSE a, ins, o))
      [] op = "broadcast" -> Broadcasted(t, a, o)
      [] op = "reshape" -> Reshaped(t, a, o)
      [] op = "intodim" -> IF Len(t.sh) = a.n THEN Yes(<<Arr(t.sh, t.v)>>) ELSE No
      [] op = "tovec" -> IF Len(t.sh) = 1 THEN Yes(<<Arr(t.sh, t.v)>>) ELSE No
      [] op = "scalar" -> IF Prod(t.sh) = 1 THEN Yes(<<Arr(<<>>, t.v)>>) ELSE No
      [] op = "select" -> Of(Do(op, a, ins, o))
      [] op = "selectnone" -> No
      [] op = "mask" -> LET idx == JJ!MaskIdx(a.idx) IN Of(Do("select", [a |-> a.a, idx |-> idx], ins, o))
      [] op \in {"unstack", "concat", "stack", "add", "matmul", "pack", "unpack"} -> Of(Do(op, a, ins, o))
      [] op = "vecdot" -> Of(Do(op, a, ins, o))
      [] op = "concat0" -> No
      [] op = "meshgrid" -> IF (how % 3) = 2 THEN No ELSE Of(Do(op, a, ins, o))
      [] op = "sum" -> Of(Do(op, a, ins, o))
      [] op \in {"rshape", "argmin"} ->
            LET sp == RR!SplitFor(t.sh, IF a.none THEN <<>> ELSE <<a.ax>>)
                needs == op = "argmin" \/ (how % 8) \in {0, 1}
            IN  IF ~sp.ok \/ (needs /\ Prod(t.sh) = 0) THEN No ELSE Yes(<<Arr(sp.sh, <<>>)>>)
      [] op = "axes_iter" -> IF a.none \/ ~AxesOk(a.ax, Len(t.sh)) THEN No ELSE Yes(AxesParts(t, a.ax))
      [] op = "iterord" ->
            LET ord == IterOrders[(how % 6) + 1]
                indexed == ((how \div 6) % 2) = 1
            IN  IF ord = "B" \/ (indexed /\ ord \notin {"C", "F"}) THEN No
                ELSE Yes(<<Flat(t, IF ord = "F" THEN "F" ELSE "C")>>)
      [] op = "without" ->
            LET c == ins[3].sh u == ins[2] IN
            IF ~BroadcastToOp(t.sh, c, o).ok \/ ~BroadcastToOp(u.sh, c, o).ok THEN No
            ELSE Yes(<<Val1(c, LAMBDA p : t.v[BcPos(p, c, t.sh, o) + 1] - u.v[BcPos(p, c, u.sh, o) + 1])>>)
      [] op = "assign" ->
            LET u == ins[2] IN
            IF ~BroadcastToOp(u.sh, t.sh, o).ok THEN No
            ELSE Yes(<<Val1(t.sh, LAMBDA p : u.v[BcPos(p, t.sh, u.sh, o) + 1])>>)
      [] op = "matmulout" ->
            LET x == Mat2(op, <<t, ins[2]>>, o) c == ins[3].sh IN
            IF ~x.ok THEN No
            ELSE IF x.outs[1].sh = c THEN Yes(x.outs)
            ELSE IF Prod(c) = 0 \/ BroadcastToOp(x.outs[1].sh, c, o).ok THEN AnyW
            ELSE No
      [] op = "vecdot2" ->
            IF a.none THEN AnyW
            ELSE LET pl == MM!VDPlan(t.sh, ins[2].sh, 2, a.src, a.dst, o) IN IF pl.ok THEN Yes(<<Arr(pl.sh, <<>>)>>) ELSE No
      [] op = "bcast" ->
            LET u == ins[2] bc == BcAll(<<t.sh, u.sh>>, o) IN
            IF ~bc.ok THEN No ELSE Yes(<<Repeated(t, bc.sh, o), Repeated(u, bc.sh, o)>>)
      [] op = "allclose" ->
            LET bc == BcAll(<<t.sh, ins[2].sh>>, o) IN
            IF ~bc.ok \/ Prod(bc.sh) = 0 THEN No ELSE Yes(<<>>)
      [] op = "tri" -> Of(Do(op, a, ins, o))
      [] op = "diag" ->
            IF Len(t.sh) = 1 /\ Abs(a.diag) >= Big THEN No     \* no memory holds it
            ELSE LET x == JJ!Diag(t.sh, a.diag) IN IF ~x.ok THEN No ELSE Yes(<<Arr(x.sh, JJ!Fetch(ins, x))>>)
      [] op = "index" -> IF ~ValidIdx(a.idx, t.sh) THEN No ELSE Yes(<<Arr(<<>>, <<t.v[Ravel(a.idx, t.sh) + 1]>>)>>)
      [] op = "zeros" -> NewOf(a.sh, LAMBDA p : FillOf(how))
      [] op = "eye" -> Of(Do(op, a, ins, o))
      [] op = "arange" ->
            IF a.step = 0 THEN No
            ELSE IF Abs(a.start) >= Big \/ Abs(a.stop) >= Big \/ Abs(a.step) >= Big
            THEN IF (a.step > 0 /\ a.start >= a.stop) \/ (a.step < 0 /\ a.start <= a.stop) THEN Yes(<<Arr(<<0>>, <<>>)>>)
                 ELSE AnyW
            ELSE LET v == CC!Arange(a.start, a.stop, a.step) IN Yes(<<Arr(<<Len(v)>>, v)>>)
      [] op = "linspace" -> IF a.n >= Big THEN No ELSE Yes(<<Arr(<<a.n>>, <<>>)>>)
      [] op = "asarray" ->
            IF HasZero(a.sh) THEN Yes(<<Arr(a.sh, <<>>)>>)
            ELSE IF HasBig(a.sh) \/ Prod(a.sh) > a.n THEN No
            ELSE Yes(<<Val1(a.sh, LAMBDA p : IF o = "C" THEN p ELSE Rank(Unravel(p, a.sh), a.sh, o))>>)

\* visits whose order is the library's choice
Unordered(op, how) ==
    CASE op = "axes_iter" -> (how % 3) = 0
      [] op = "iterord" -> IterOrders[(how % 6) + 1] \notin {"C", "F"}
      [] OTHER -> FALSE
===============================================================================
