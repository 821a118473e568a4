---------------------------- MODULE TensorMachine ----------------------------
(***************************************************************************)
(* The observable state of the tensor library as a state machine.          *)
(*                                                                         *)
(*   heap : buffer name -> sequence of element values                      *)
(*   env  : tensor name -> [b, sh, ad, ro]                                 *)
(*          b  the buffer it lives in                                      *)
(*          sh its shape                                                   *)
(*          ad for every logical position (row-major) the 1-based cell of  *)
(*             the buffer that holds this element                          *)
(*                                                                         *)
(* A view operation adds a tensor over the same buffer; a copying          *)
(* operation adds a buffer; a write changes exactly the addressed cells.   *)
(* The same actions are used by the bounded exploration (MC_*.tla) and by  *)
(* the trace specifications that bind recorded executions of the real      *)
(* library to this machine.                                                *)
(***************************************************************************)
EXTENDS NdArray
VARIABLES heap, env

Content(t) == [i \in 1 .. Len(env[t].ad) |-> heap[env[t].b][env[t].ad[i]]]
ContentIn(h, e) == [i \in 1 .. Len(e.ad) |-> h[e.b][e.ad[i]]]
IsBroadcast(e) == Cardinality(Rng(e.ad)) < Len(e.ad)

\* the meaning of a named view operation (o is the device's default order)
ViewMeaning(op, a, sh, o) ==
    CASE op = "slice"     -> SliceOp(sh, a.items)
      [] op = "transpose" -> TransposeOp(sh, a.none, a.ax)
      [] op = "reverse"   -> ReverseAxesOp(sh)
      [] op = "mtrans"    -> SwapAxesOp(sh, -1, -2)
      [] op = "swapaxes"  -> SwapAxesOp(sh, a.a, a.b)
      [] op = "moveaxis"  -> MoveAxisOp(sh, a.src, a.dst)
      [] op = "flip"      -> FlipOp(sh, a.none, a.ax)
      [] op = "expand"    -> ExpandDimsOp(sh, a.ax)
      [] op = "squeeze"   -> SqueezeOp(sh, a.none, a.ax)
      [] op = "diagonal"  -> DiagonalOp(sh, Opt(a.off, 0), Opt(a.a1, 0), Opt(a.a2, 1))
      [] op = "broadcast" -> BroadcastToOp(sh, a.sh, o)
      [] op = "dyn"       -> MkView(sh, sh, LAMBDA idx : idx)
      [] op = "todim"     -> IF a.n = Len(sh) THEN MkView(sh, sh, LAMBDA idx : idx) ELSE Bad

\* the meaning of a conversion that may have to copy: the new shape and, for every new position,
\* the position of the source whose element it holds (o is the device's default order)
MatMeaning(op, a, sh, o) ==
    CASE op = "reshape" ->
           LET r == ReshapeTarget(a.sh, Prod(sh)) IN
           IF ~r.ok THEN Bad ELSE [ok |-> TRUE, sh |-> r.sh, src |-> ReshapeSrc(sh, r.sh, Opt(a.order, o))]
      [] op = "layout" ->
           IF Prod(a.sh) # Prod(sh) THEN Bad ELSE [ok |-> TRUE, sh |-> a.sh, src |-> ReshapeSrc(sh, a.sh, o)]
      [] op \in {"contig", "prefer", "own", "asarray"} -> MkView(sh, sh, LAMBDA idx : idx)
\* the strides of a contiguous array, wherever they matter
ContigStrides(sh, st, ord) ==
    Prod(sh) = 0 \/ LET w == IF ord = "C" THEN CStr(sh) ELSE FStr(sh)
                    IN  \A k \in DOMAIN sh : sh[k] > 1 => st[k] = w[k]

\* the tensor denoted by a view operation on tensor e
ViewOf(m, e) == [b |-> e.b, sh |-> m.sh, ad |-> [i \in 1 .. Prod(m.sh) |-> e.ad[m.src[i - 1] + 1]]]

\* ------------------------------------------------------------ actions
Alloc(t, b, data, e) ==
    /\ t \notin DOMAIN env /\ b \notin DOMAIN heap
    /\ heap' = (b :> data) @@ heap
    /\ env' = (t :> e) @@ env
View(t, src, op, a, o) ==
    LET m == ViewMeaning(op, a, env[src].sh, o) IN
    /\ m.ok
    /\ env' = (t :> ViewOf(m, env[src])) @@ env
    /\ UNCHANGED heap
\* write values (a function of the row-major position) through tensor t
Written(t, Val(_)) ==
    LET e == env[t]
        old == heap[e.b]
        at == [c \in Rng(e.ad) |-> CHOOSE i \in 1 .. Len(e.ad) : e.ad[i] = c]
        cells == Rng(e.ad)
    IN  [heap EXCEPT ![e.b] = [c \in 1 .. Len(old) |-> IF c \in cells THEN Val(at[c] - 1) ELSE old[c]]]
Write(t, Val(_)) == /\ heap' = Written(t, Val)
                    /\ UNCHANGED env
Reject == UNCHANGED <<heap, env>>

\* ------------------------------------------------------------ writes
ScalarOp(f, x, y) == CASE f = "add" -> x + y
                       [] f = "sub" -> x - y
                       [] f = "mul" -> x * y
\* position (0-based) in order ord of the row-major position p
OrdPos(p, sh, ord) == IF ord = "C" THEN p ELSE Rank(Unravel(p, sh), sh, "F")
\* the values a broadcast source supplies at the positions of shape sh
BcSource(s, sh, o) == BroadcastToOp(env[s].sh, sh, o)
\* a write request: whether it must be refused, and the value written at each position
\*   fill v | assign src | opassign f src | opscalar f v | elem idx v | seq order v | map | idx | without f x y
WriteMeaning(op, a, t, o) ==
    LET e == env[t]
        old == Content(t)
        new(V(_)) == [ok |-> TRUE, val |-> [p \in 0 .. (Prod(e.sh) - 1) |-> V(p)]]
    IN
    CASE op = "fill" -> IF IsBroadcast(e) THEN Bad ELSE new(LAMBDA p : a.v)
      [] op = "assign" ->
           LET m == BcSource(a.src, e.sh, o)
               c == Content(a.src)
           IN  IF IsBroadcast(e) \/ ~m.ok THEN Bad ELSE new(LAMBDA p : c[m.src[p] + 1])
      [] op = "opassign" ->
           LET m == BcSource(a.src, e.sh, o)
               c == Content(a.src)
           IN  IF ~m.ok THEN Bad ELSE new(LAMBDA p : ScalarOp(a.f, old[p + 1], c[m.src[p] + 1]))
      [] op = "opscalar" -> new(LAMBDA p : ScalarOp(a.f, old[p + 1], a.v))
      [] op = "elem" -> IF ~ValidIdx(a.idx, e.sh) THEN Bad
                        ELSE new(LAMBDA p : IF p = Ravel(a.idx, e.sh) THEN a.v ELSE old[p + 1])
      [] op = "seq" -> new(LAMBDA p : a.v + OrdPos(p, e.sh, a.order))
      [] op = "map" -> new(LAMBDA p : 2 * old[p + 1] + 1)
      [] op = "idx" -> new(LAMBDA p : FoldLeft(LAMBDA x, y : x * 7 + y, 0, Unravel(p, e.sh)))
      [] op = "without" ->
           LET mx == BcSource(a.x, e.sh, o)
               my == BcSource(a.y, e.sh, o)
               cx == Content(a.x)
               cy == Content(a.y)
           IN  IF ~mx.ok \/ ~my.ok THEN Bad
               ELSE new(LAMBDA p : ScalarOp(a.f, cx[mx.src[p] + 1], cy[my.src[p] + 1]))

\* ------------------------------------------------------------ properties
InBounds == \A t \in DOMAIN env :
    /\ Len(env[t].ad) = Prod(env[t].sh)
    /\ \A i \in DOMAIN env[t].ad : env[t].ad[i] >= 1 /\ env[t].ad[i] <= Len(heap[env[t].b])
\* a write reaches exactly the tensors that share a written cell
FrameOf(t) == \A u \in DOMAIN env :
    (env[u].b # env[t].b \/ Rng(env[u].ad) \cap Rng(env[t].ad) = {}) =>
        ContentIn(heap', env[u]) = ContentIn(heap, env[u])
=============================================================================
