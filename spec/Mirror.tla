-------------------------------- MODULE Mirror --------------------------------
(***************************************************************************)
(* The two conventions are mirror images.  Reversing the axes of an array  *)
(* turns row-major into column-major; for every request there is a         *)
(* mirrored request, such that asking a column-major device the mirrored   *)
(* request about the reversed operands yields the reversed results.        *)
(*                                                                         *)
(* An array is [sh, v] with the values in row-major order of the index.    *)
(* Args(op, a, n) mirrors the arguments of a request about operands of     *)
(* rank n.  Do(op, a, ins, o) is what the request means under convention   *)
(* o; MC_Mirror checks that meaning and mirror commute.                    *)
(***************************************************************************)
EXTENDS NdArray
JJ == INSTANCE Join
TT == INSTANCE Tri
MM == INSTANCE MatMul
RR == INSTANCE Reduce
CC == INSTANCE Create

\* ------------------------------------------------------------ mirrored arrays
RevArr(t) == LET new == RevSeq(t.sh)
                 w == RevSeq(CStr(t.sh))
                 cs == CStr(new)
             IN  [sh |-> new, v |-> [p \in 1 .. Prod(new) |-> t.v[Dot(UnravelW(p - 1, new, cs), w) + 1]]]

\* ------------------------------------------------------------ mirrored requests
Ax(a) == -a - 1                      \* counted from the other end; out of range stays out of range
AxList(ax) == [i \in 1 .. Len(ax) |-> Ax(ax[i])]
OtherOrder(o) == IF o = "C" THEN "F" ELSE IF o = "F" THEN "C" ELSE o
OtherUplo(u) == IF u = "L" THEN "U" ELSE "L"
\* the fields of the arguments; every request uses some of them
Field(op, f, x) ==
    CASE f = "items" -> IF \E i \in DOMAIN x : x[i].k = "e" THEN RevSeq(x) ELSE <<[k |-> "e"]>> \o RevSeq(x)
      [] f = "ax" -> IF op = "transpose" THEN AxList(RevSeq(x)) ELSE IF op = "axes_iter" THEN AxList(RevSeq(x)) ELSE AxList(x)
      [] f \in {"src", "dst"} -> AxList(x)
      [] f \in {"a", "b"} -> Ax(x)
      [] f \in {"a1", "a2"} -> AxList(x)
      [] f = "off" -> IF Len(x) = 0 THEN x ELSE <<-x[1]>>
      [] f = "sh" -> RevSeq(x)
      [] f = "order" -> OtherOrder(x)
      [] f = "uplo" -> OtherUplo(x)
      [] f \in {"diag"} -> -x
      [] OTHER -> x                     \* n, none, idx, val, symm, how the values are computed
\* offsets of a diagonal refer to the axes in the order they are named; an axis that is not named is 0 or 1
MirArgs(op, a) ==
    IF op = "diagonal" /\ (Len(a.a1) = 1 \/ Len(a.a2) = 1)
    THEN [f \in DOMAIN a |-> CASE f = "off" -> a.off
                              [] f = "a1" -> <<Ax(Opt(a.a1, 0))>>
                              [] f = "a2" -> <<Ax(Opt(a.a2, 1))>>]
    ELSE [f \in DOMAIN a |-> Field(op, f, a[f])]
\* operands that trade places: the product of reversed matrices is reversed
MirIns(op, ins) == IF op \in {"matmul", "meshgrid"} THEN RevSeq(ins) ELSE ins
MirOuts(op, outs) == IF op = "meshgrid" THEN RevSeq(outs) ELSE outs
\* whether the documentation leaves the convention free for this request
\* (matrix_transpose, tril and triu always mean the last two axes; a diagonal always becomes the last axis;
\*  atleast_2d/3d, hstack and vstack are stated for axes counted from the front)
Free(op, ins) ==
    CASE op \in {"mtrans", "diagonal", "tri"} -> Len(ins[1].sh) <= 2
      [] OTHER -> TRUE

\* ------------------------------------------------------------ meanings
Ref == [ok |-> FALSE, outs |-> <<>>]
One(x) == [ok |-> TRUE, outs |-> <<x>>]
Gathered(m, t) == IF ~m.ok THEN Ref ELSE One([sh |-> m.sh, v |-> [p \in 1 .. Prod(m.sh) |-> t.v[m.src[p - 1] + 1]]])
ViewOp(op, a, sh, o) ==
    CASE op = "slice"     -> SliceOp(sh, a.items)
      [] op = "transpose" -> TransposeOp(sh, a.none, a.ax)
      [] op = "reverse"   -> ReverseAxesOp(sh)
      [] op = "mtrans"    -> SwapAxesOp(sh, -1, -2)
      [] op = "swapaxes"  -> SwapAxesOp(sh, a.a, a.b)
      [] op = "moveaxis"  -> MoveAxisOp(sh, a.src, a.dst)
      [] op = "flip"      -> FlipOp(sh, a.none, a.ax)
      [] op = "expand"    -> ExpandDimsOp(sh, a.ax)
      [] op = "squeeze"   -> SqueezeOp(sh, a.none, a.ax)
      [] op = "diagonal"  -> DiagonalOp(sh, Opt(a.off, 0), Opt(a.a1, 0), Opt(a.a2, 1))
      [] op = "broadcast" -> BroadcastToOp(sh, a.sh, o)
      [] op = "reshape"   -> LET g == ReshapeTarget(a.sh, Prod(sh))
                             IN  IF ~g.ok THEN Bad ELSE [ok |-> TRUE, sh |-> g.sh, src |-> ReshapeSrc(sh, g.sh, o)]
ViewOps == {"slice", "transpose", "reverse", "mtrans", "swapaxes", "moveaxis", "flip", "expand", "squeeze", "diagonal", "broadcast", "reshape"}
FromParts(x, ins) == IF ~x.ok THEN Ref ELSE One([sh |-> x.sh, v |-> JJ!Fetch(ins, x)])
Pairs(v) == [i \in DOMAIN v |-> <<v[i], 0>>]
Do(op, a, ins, o) ==
    LET t == ins[1] IN
    CASE op \in ViewOps -> Gathered(ViewOp(op, a, t.sh, o), t)
      [] op = "add" ->
            LET u == ins[2] bc == BcAll(<<t.sh, u.sh>>, o) IN
            IF ~bc.ok THEN Ref
            ELSE One([sh |-> bc.sh, v |-> [p \in 1 .. Prod(bc.sh) |->
                        10 * t.v[BcPos(p - 1, bc.sh, t.sh, o) + 1] + u.v[BcPos(p - 1, bc.sh, u.sh, o) + 1]]])
      [] op = "sum" ->
            LET sp == RR!SplitFor(t.sh, IF a.none THEN <<>> ELSE <<a.ax>>) IN
            IF ~sp.ok THEN Ref
            ELSE One([sh |-> sp.sh, v |-> [p \in 1 .. Prod(sp.sh) |-> RR!SumOf(RR!Elems(t.v, sp, p))]])
      [] op = "matmul" ->
            LET pl == MM!MMPlan(t.sh, ins[2].sh, o)
                x(y) == [sh |-> y.sh, v |-> y.v, im |-> <<>>]
            IN  IF ~pl.ok THEN Ref
                ELSE One([sh |-> pl.sh, v |-> LET z == MM!Values(x(t), x(ins[2]), pl, 1) IN [p \in DOMAIN z |-> z[p][1]]])
      [] op = "vecdot" ->
            LET pl == MM!VDPlan(t.sh, ins[2].sh, 1, <<a.a>>, <<a.a>>, o)
                x(y) == [sh |-> y.sh, v |-> y.v, im |-> <<>>]
            IN  IF ~pl.ok THEN Ref
                ELSE One([sh |-> pl.sh, v |-> LET z == MM!Values(x(t), x(ins[2]), pl, 1) IN [p \in DOMAIN z |-> z[p][1]]])
      [] op = "concat" -> FromParts(JJ!Concat([i \in DOMAIN ins |-> ins[i].sh], a.a), ins)
      [] op = "stack" -> FromParts(JJ!Stack([i \in DOMAIN ins |-> ins[i].sh], a.a), ins)
      [] op = "select" -> FromParts(JJ!Select(t.sh, a.a, a.idx), ins)
      [] op = "unstack" ->
            IF ~JJ!UnstackOk(t.sh, a.a) THEN Ref
            ELSE [ok |-> TRUE, outs |-> [j \in 1 .. t.sh[NormAx(a.a, Len(t.sh)) + 1] |->
                    LET x == JJ!UnstackPart(t.sh, a.a, j - 1) IN [sh |-> x.sh, v |-> JJ!Fetch(ins, x)]]]
      [] op = "meshgrid" ->
            IF \E i \in DOMAIN ins : Len(ins[i].sh) # 1 THEN Ref
            ELSE [ok |-> TRUE, outs |-> [j \in DOMAIN ins |->
                    LET x == JJ!Grid([i \in DOMAIN ins |-> ins[i].sh[1]], FALSE, j) IN [sh |-> x.sh, v |-> JJ!Fetch(ins, x)]]]
      [] op = "tri" ->
            IF Len(t.sh) < 2 THEN Ref
            ELSE LET kp == TT!Keeps(t.sh, a.uplo, a.diag)
                 IN  One([sh |-> t.sh, v |-> [p \in DOMAIN t.v |-> IF kp[p] THEN t.v[p] ELSE 0]])
      [] op = "pack" ->
            LET x == TT!Pack(t.sh, Pairs(t.v), a.uplo, o) IN
            IF ~x.ok THEN Ref ELSE One([sh |-> x.sh, v |-> [p \in DOMAIN x.v |-> x.v[p][1]]])
      [] op = "unpack" ->
            LET x == TT!Unpack(t.sh, Pairs(t.v), a.uplo, a.symm, o) IN
            IF ~x.ok THEN Ref ELSE One([sh |-> x.sh, v |-> [p \in DOMAIN x.v |-> (CHOOSE z \in x.v[p] : TRUE)[1]]])
      [] op = "eye" -> One([sh |-> a.sh, v |-> CC!Eye(a.sh[1], a.sh[2], a.diag)])
      [] op = "fill" -> \* a new array of this shape from a sequence of numbers, in the order of the convention
            IF Prod(a.sh) # a.n THEN Ref
            ELSE One([sh |-> a.sh, v |-> [p \in 1 .. Prod(a.sh) |-> Rank(Unravel(p - 1, a.sh), a.sh, o)]])
      [] op = "iter" -> \* the elements in an order
            One([sh |-> <<Prod(t.sh)>>, v |-> [r \in 1 .. Prod(t.sh) |-> t.v[PosAtRank(r - 1, t.sh, a.order) + 1]]])

\* ------------------------------------------------------------ the law
\* res, mir: results [ok, outs] of a request and of its mirror
\* (an iteration in greedy order visits the same things, in an order of its own)
Count(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p[i], p) = Count(p[i], q)
Mirrored(op, res, mir) ==
    /\ res.ok = mir.ok
    /\ Len(res.outs) = Len(mir.outs)
    /\ LET m == MirOuts(op, res.outs)
       IN  \A i \in DOMAIN m : mir.outs[i] = RevArr(m[i])
===============================================================================
