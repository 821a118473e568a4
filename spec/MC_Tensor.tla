------------------------------ MODULE MC_Tensor ------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of the tensor machine: one buffer, every *)
(* chain of at most MaxViews view operations with arguments from small     *)
(* sets, followed by writes.  Checks the machine's own guarantees and      *)
(* prints every chain (as text) for replay on the real library.            *)
(***************************************************************************)
EXTENDS TensorMachine, IOUtils
CONSTANTS MaxViews, Shape, Emit
VARIABLES hist, last

Ax(n) == (-n - 1) .. n
SliceArgs == {<<>>, <<-4>>, <<-1>>, <<0>>, <<1>>, <<3>>}
Items == {[k |-> "i", v |-> v] : v \in {-4, -1, 0, 1, 2}}
      \cup {[k |-> "s", a |-> a, o |-> o, p |-> p] : a \in SliceArgs, o \in SliceArgs, p \in {<<>>, <<-1>>, <<2>>, <<-2>>}}
      \cup {[k |-> "n"], [k |-> "e"]}
IntOrNone(x) == IF Len(x) = 0 THEN "_" ELSE ToString(x[1])
ItemText(it) == CASE it.k = "i" -> "i:" \o ToString(it.v)
                  [] it.k = "s" -> "s:" \o IntOrNone(it.a) \o ":" \o IntOrNone(it.o) \o ":" \o IntOrNone(it.p)
                  [] OTHER -> it.k
Txt(s, F(_)) == FoldLeft(LAMBDA x, y : x \o " " \o F(y), "", s)
AxTxt(s) == FoldLeft(LAMBDA x, y : IF x = "" THEN ToString(y) ELSE x \o "," \o ToString(y), "", s)

\* every operation offered to a tensor with n axes, as <<op, args, text>>
Ops(sh) ==
    LET n == Len(sh) IN
    {<<"slice", [items |-> <<i>>], "slice" \o Txt(<<i>>, ItemText)>> : i \in Items}
    \cup {<<"slice", [items |-> <<i, j>>], "slice" \o Txt(<<i, j>>, ItemText)>> :
            i \in {[k |-> "n"], [k |-> "e"], [k |-> "i", v |-> -1], [k |-> "s", a |-> <<1>>, o |-> <<>>, p |-> <<>>]},
            j \in {[k |-> "n"], [k |-> "e"], [k |-> "i", v |-> 0], [k |-> "s", a |-> <<>>, o |-> <<>>, p |-> <<-2>>],
                   [k |-> "s", a |-> <<2>>, o |-> <<0>>, p |-> <<-1>>]}}
    \cup {<<"transpose", [none |-> FALSE, ax |-> s], "transpose " \o AxTxt(s)>> : s \in IF n <= 1 THEN {<<0>>} ELSE {<<1, 0>>, <<-1, 0>>, <<0, 1, 2>>, <<2, 0, -2>>, <<0, 0>>}}
    \cup {<<"reverse", [x |-> 0], "reverse">>, <<"mtrans", [x |-> 0], "mtrans">>}
    \cup {<<"swapaxes", [a |-> a, b |-> b], "swapaxes " \o AxTxt(<<a, b>>)>> : a \in {-n, 0, 1}, b \in Ax(n)}
    \cup {<<"moveaxis", [src |-> <<a>>, dst |-> <<b>>], "moveaxis " \o ToString(a) \o " " \o ToString(b)>> : a \in Ax(n), b \in {-1, 0, 1}}
    \cup {<<"flip", [none |-> FALSE, ax |-> <<a>>], "flip " \o ToString(a)>> : a \in Ax(n)}
    \cup {<<"flip", [none |-> TRUE, ax |-> <<>>], "flip none">>}
    \cup {<<"expand", [ax |-> <<a>>], "expand " \o ToString(a)>> : a \in (-n - 2) .. (n + 1)}
    \cup {<<"squeeze", [none |-> FALSE, ax |-> <<a>>], "squeeze " \o ToString(a)>> : a \in Ax(n)}
    \cup {<<"squeeze", [none |-> TRUE, ax |-> <<>>], "squeeze none">>}
    \cup {<<"diagonal", [off |-> <<f>>, a1 |-> <<a>>, a2 |-> <<b>>], "diagonal " \o AxTxt(<<f, a, b>>)>> : f \in -3 .. 3, a \in {0, -1}, b \in {0, 1}}

ShapeDef == <<2, 3>>
ShapeDeep == <<3, 2, 4>>
Base == [b |-> 1, sh |-> Shape, ad |-> [i \in 1 .. Prod(Shape) |-> i]]
Init == /\ heap = (1 :> [i \in 1 .. Prod(Shape) |-> i])
        /\ env = (1 :> Base)
        /\ hist = <<>>
        /\ last = [ok |-> TRUE]
\* one more view of the newest tensor (a refused request ends the chain)
NextView ==
    /\ Len(hist) < MaxViews
    /\ last.ok
    /\ \E x \in Ops(env[Len(hist) + 1].sh) :
          LET m == ViewMeaning(x[1], x[2], env[Len(hist) + 1].sh, "C") IN
          /\ hist' = Append(hist, x[3])
          /\ last' = [ok |-> m.ok]
          /\ UNCHANGED heap
          /\ env' = IF m.ok THEN (Len(hist) + 2 :> ViewOf(m, env[Len(hist) + 1])) @@ env ELSE env
Next == NextView
vars == <<heap, env, hist, last>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is checked
Newest == env[Cardinality(DOMAIN env)]
RoundTrips ==
    LET e == Newest
        n == Len(e.sh)
        Back(f, m) == m.ok /\ ViewOf(m, f).sh = e.sh /\ ViewOf(m, f).ad = e.ad
    IN  /\ Back(ViewOf(FlipOp(e.sh, TRUE, <<>>), e), FlipOp(e.sh, TRUE, <<>>))
        /\ LET f == ViewOf(ReverseAxesOp(e.sh), e) IN Back(f, ReverseAxesOp(f.sh))
        /\ \A a \in 0 .. n : LET f == ViewOf(ExpandDimsOp(e.sh, <<a>>), e)
                             IN  Back(f, SqueezeOp(f.sh, FALSE, <<a>>))
        /\ \A a, b \in 0 .. (n - 1) :
             /\ LET f == ViewOf(SwapAxesOp(e.sh, a, b), e) IN Back(f, SwapAxesOp(f.sh, a, b))
             /\ LET f == ViewOf(MoveAxisOp(e.sh, <<a>>, <<b>>), e) IN Back(f, MoveAxisOp(f.sh, <<b>>, <<a>>))
        \* slicing an axis into front and back partitions it
        /\ \A k \in 0 .. 3 : n >= 1 =>
             LET pre == ViewOf(SliceOp(e.sh, <<[k |-> "s", a |-> <<>>, o |-> <<k>>, p |-> <<>>]>>), e)
                 suf == ViewOf(SliceOp(e.sh, <<[k |-> "s", a |-> <<k>>, o |-> <<>>, p |-> <<>>]>>), e)
             IN  pre.ad \o suf.ad = e.ad
\* views never duplicate cells (broadcasting is not among these operations)
Injective == \A t \in DOMAIN env : ~IsBroadcast(env[t])
\* every view is realisable by strides over the buffer: the library can return it without copying
Strided == Affine(Newest.ad, Newest.sh)
\* a write through the newest tensor leaves disjoint tensors and foreign cells alone
WriteFrame ==
    LET t == Cardinality(DOMAIN env)
        h == Written(t, LAMBDA p : 100 + p)
    IN  /\ \A c \in 1 .. Len(heap[1]) : (c \notin Rng(env[t].ad)) <=> (h[1][c] = heap[1][c])
        /\ ContentIn(h, env[t]) = [i \in 1 .. Len(env[t].ad) |-> 99 + i]
EmitChain == Emit => (Len(hist) > 0 => PrintT("CHAIN " \o AxTxt(Shape) \o "|" \o FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o ";" \o y, "", hist)))
=============================================================================
