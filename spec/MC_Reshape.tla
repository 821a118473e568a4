------------------------------ MODULE MC_Reshape ------------------------------
(***************************************************************************)
(* Bounded exploration of conversions.  A tensor, at most one view of it,  *)
(* then reshapes (every factorisation of the size, one axis to be inferred,*)
(* impossible requests) in either order, each of which may share storage   *)
(* exactly when strides for it exist, or copies.  Checked in every state:  *)
(* the element sequence in the order of the request is that of the source, *)
(* reshaping back restores it, two reshapes in one order are one, the two  *)
(* orders are mirror images, and "strides exist" means what it says        *)
(* (compared with a search).  Histories are emitted for replay.            *)
(***************************************************************************)
EXTENDS TensorMachine
CONSTANTS Shapes, MaxViews, MaxConv, Emit
VARIABLES hist, nv, nc, tgt, prev

AxTxt(s) == FoldLeft(LAMBDA x, y : IF x = "" THEN ToString(y) ELSE x \o "," \o ToString(y), "", s)
Show(s) == IF s = <<>> THEN "_" ELSE AxTxt(s)
Sl(a, o, p) == [k |-> "s", a |-> a, o |-> o, p |-> p]
Views(sh) ==
    {<<"reverse", [x |-> 0], "reverse">>, <<"flip", [none |-> TRUE, ax |-> <<>>], "flip none">>,
     <<"flip", [none |-> FALSE, ax |-> <<0>>], "flip 0">>, <<"swapaxes", [a |-> 0, b |-> 1], "swapaxes 0,1">>,
     <<"slice", [items |-> <<Sl(<<>>, <<>>, <<2>>)>>], "slice s:_:_:2">>,
     <<"slice", [items |-> <<[k |-> "e"], Sl(<<1>>, <<>>, <<>>)>>], "slice e s:1:_:_">>,
     <<"slice", [items |-> <<[k |-> "e"], [k |-> "n"]>>], "slice e n">>,
     <<"diagonal", [off |-> <<0>>, a1 |-> <<0>>, a2 |-> <<1>>], "diagonal 0,0,1">>}
    \cup {<<"broadcast", [sh |-> s], "broadcast " \o AxTxt(s)>> : s \in {<<2>> \o sh}}

\* the requests: all shapes of at most three axes with the right number of elements, one of the axes possibly
\* left to be inferred, and some that cannot be met
Shaped(n) == {s \in UNION {[1 .. k -> IF n = 0 THEN 0 .. 2 ELSE 1 .. n] : k \in 0 .. 3} : Prod(s) = n}
Inferred(S) == UNION {{[s EXCEPT ![i] = -1] : i \in DOMAIN s} : s \in S}
Wrong(n) == {<<n + 1>>, <<-1, -1>>, <<-2>>, <<0, -1>>, <<n, 2>>, <<5, -1>>}
Targets(n) == LET S == {s \in Shaped(n) : n > 0 \/ (Len(s) <= 2 /\ \A i \in DOMAIN s : s[i] <= 2)} IN S \cup Inferred(S) \cup Wrong(n)

OrdTxt(o) == IF o = <<>> THEN "_" ELSE o[1]
Init == \E sh \in Shapes :
    /\ heap = (1 :> [i \in 1 .. Prod(sh) |-> i])
    /\ env = (1 :> [b |-> 1, sh |-> sh, ad |-> [i \in 1 .. Prod(sh) |-> i]])
    /\ hist = <<"n " \o Show(sh)>>
    /\ nv = 0 /\ nc = 0 /\ tgt = [ok |-> TRUE, o |-> "C"] /\ prev = 1
Top == Cardinality(DOMAIN env)
NextView ==
    /\ nv < MaxViews /\ nc = 0
    /\ \E x \in Views(env[Top].sh) :
        LET m == ViewMeaning(x[1], x[2], env[Top].sh, "C") IN
        /\ m.ok /\ Prod(m.sh) <= 12
        /\ env' = (Top + 1 :> ViewOf(m, env[Top])) @@ env
        /\ hist' = Append(hist, "v " \o ToString(Top) \o " " \o x[3])
        /\ heap' = heap /\ nv' = nv + 1 /\ nc' = nc /\ tgt' = tgt /\ prev' = Top
\* a conversion may share storage when strides exist, and may copy unless forbidden
NextConv ==
    /\ nc < MaxConv /\ tgt.ok
    /\ \E a \in {[sh |-> q, order |-> o] : q \in Targets(Prod(env[Top].sh)), o \in {<<>>, <<"C">>, <<"F">>}} :
        LET m == MatMeaning("reshape", a, env[Top].sh, "C")
            v == ViewOf(m, env[Top])
        IN
        /\ hist' = Append(hist, "m " \o ToString(Top) \o " reshape " \o Show(a.sh) \o " " \o OrdTxt(a.order))
        /\ nc' = nc + 1 /\ nv' = nv /\ prev' = Top
        /\ tgt' = [ok |-> m.ok, o |-> Opt(a.order, "C")]
        /\ IF ~m.ok THEN UNCHANGED <<heap, env>>
           ELSE IF Affine(v.ad, m.sh) THEN heap' = heap /\ env' = (Top + 1 :> v) @@ env
           ELSE /\ heap' = (Cardinality(DOMAIN heap) + 1 :> ContentIn(heap, v)) @@ heap
                /\ env' = (Top + 1 :> [b |-> Cardinality(DOMAIN heap) + 1, sh |-> m.sh, ad |-> [i \in 1 .. Prod(m.sh) |-> i]]) @@ env
Next == NextView \/ NextConv
vars == <<heap, env, hist, nv, nc, tgt, prev>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is checked
Seq1(t, o) == [r \in 1 .. Prod(env[t].sh) |-> Content(t)[PosAtRank(r - 1, env[t].sh, o) + 1]]
KeepsSequence == nc > 0 /\ tgt.ok => Seq1(Top, tgt.o) = Seq1(prev, tgt.o)
Back == nc > 0 /\ tgt.ok =>
    LET m == MatMeaning("reshape", [sh |-> env[prev].sh, order |-> <<tgt.o>>], env[Top].sh, "C")
    IN  m.ok /\ m.sh = env[prev].sh /\ ContentIn(heap, ViewOf(m, env[Top])) = Content(prev)
\* a reshape of a reshape in the same order is the reshape of the origin
Composes == nc = 1 /\ tgt.ok =>
    \A q \in Targets(Prod(env[Top].sh)) :
        LET a == [sh |-> q, order |-> <<tgt.o>>]
            m == MatMeaning("reshape", a, env[Top].sh, "C")
            d == MatMeaning("reshape", a, env[prev].sh, "C")
        IN  /\ m.ok = d.ok
            /\ m.ok => m.sh = d.sh /\ ContentIn(heap, ViewOf(m, env[Top])) = ContentIn(heap, ViewOf(d, env[prev]))
\* column-major is row-major of the reversed axes, reversed
Mirrored == nc = 0 =>
    \A q \in Targets(Prod(env[Top].sh)) :
        LET e == env[Top]
            f == MatMeaning("reshape", [sh |-> q, order |-> <<"F">>], e.sh, "C")
            rv == ViewOf(ReverseAxesOp(e.sh), e)
            c == MatMeaning("reshape", [sh |-> RevSeq(q), order |-> <<"C">>], rv.sh, "C")
        IN  /\ f.ok = c.ok
            /\ f.ok => LET w == ViewOf(c, rv) IN ViewOf(f, e) = ViewOf(ReverseAxesOp(w.sh), w)
\* strides exist exactly when a search finds them
Near == -6 .. 6
Search(ad, sh) == Prod(sh) = 0 \/ \E st \in [DOMAIN sh -> Near] : \A p \in 0 .. (Prod(sh) - 1) : ad[p + 1] = ad[1] + Dot(Unravel(p, sh), st)
AffineExact == nc = 0 =>
    \A q \in Shaped(Prod(env[Top].sh)) : Len(q) <= 2 =>
        LET m == MatMeaning("reshape", [sh |-> q, order |-> <<"C">>], env[Top].sh, "C")
            ad == ViewOf(m, env[Top]).ad
        IN  Affine(ad, q) = Search(ad, q)
EmitHist == Emit /\ nc = MaxConv => PrintT("HIST " \o FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o ";" \o y, "", hist))
ShapesQuick == {<<2, 3>>, <<2, 2, 2>>, <<4>>, <<2, 1, 2>>, <<0, 2>>, <<>>}
ShapesDeep == {<<2, 3>>, <<2, 2>>, <<4>>, <<1, 2>>, <<0, 2>>, <<>>}
===============================================================================
