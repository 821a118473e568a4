------------------------------- MODULE MC_Write -------------------------------
(***************************************************************************)
(* Bounded exploration of writes.  A tensor over one buffer, a source over *)
(* another one, a chain of views of the tensor (broadcast ones included),  *)
(* then writes of every kind through any of them.  Every step is checked   *)
(* as an action: it changes exactly the cells the written tensor           *)
(* addresses, the written tensor then reads as the written values, a       *)
(* refused request changes nothing, and the order in which a loop writes   *)
(* the cells does not matter.  Histories are emitted for replay.           *)
(***************************************************************************)
EXTENDS TensorMachine
CONSTANTS Shapes, Sources, MaxViews, MaxWrites, Emit
VARIABLES hist, nv, nw, last

AxTxt(s) == FoldLeft(LAMBDA x, y : IF x = "" THEN ToString(y) ELSE x \o "," \o ToString(y), "", s)
Sl(a, o, p) == [k |-> "s", a |-> a, o |-> o, p |-> p]
Views(sh) ==
    LET n == Len(sh) IN
    {<<"reverse", [x |-> 0], "reverse">>, <<"flip", [none |-> TRUE, ax |-> <<>>], "flip none">>,
     <<"slice", [items |-> <<Sl(<<>>, <<>>, <<2>>)>>], "slice s:_:_:2">>, <<"slice", [items |-> <<Sl(<<1>>, <<>>, <<>>)>>], "slice s:1:_:_">>,
     <<"slice", [items |-> <<Sl(<<>>, <<>>, <<-2>>)>>], "slice s:_:_:-2">>,
     <<"slice", [items |-> <<[k |-> "i", v |-> -1]>>], "slice i:-1">>,
     <<"slice", [items |-> <<[k |-> "e"], [k |-> "i", v |-> 0]>>], "slice e i:0">>,
     <<"slice", [items |-> <<[k |-> "e"], Sl(<<-1>>, <<0>>, <<-1>>)>>], "slice e s:-1:0:-1">>,
     <<"slice", [items |-> <<[k |-> "n"], [k |-> "e"]>>], "slice n e">>,
     <<"diagonal", [off |-> <<0>>, a1 |-> <<0>>, a2 |-> <<1>>], "diagonal 0,0,1">>,
     <<"diagonal", [off |-> <<1>>, a1 |-> <<1>>, a2 |-> <<0>>], "diagonal 1,1,0">>}
    \cup {<<"broadcast", [sh |-> s], "broadcast " \o AxTxt(s)>> : s \in {<<2>> \o sh}}
\* writes to tensor t, with the source tensors
Writes(t) ==
    {<<"fill", [v |-> 7], "fill 7">>, <<"opscalar", [f |-> "mul", v |-> 3], "opscalar mul 3">>,
     <<"seq", [order |-> "C", v |-> 100], "seq C 100">>, <<"seq", [order |-> "F", v |-> 200], "seq F 200">>,
     <<"map", [n |-> 0], "map">>, <<"idx", [n |-> 0], "idx">>,
     <<"assign", [src |-> 2], "assign 2">>, <<"opassign", [f |-> "add", src |-> 2], "opassign add 2">>,
     <<"opassign", [f |-> "sub", src |-> 2], "opassign sub 2">>,
     <<"without", [f |-> "mul", x |-> 2, y |-> 2], "without mul 2 2">>}
    \cup {<<"elem", [idx |-> i, v |-> -5], "elem " \o (IF i = <<>> THEN "_" ELSE AxTxt(i)) \o " -5">> :
            i \in IF Len(env[t].sh) <= 2 THEN [1 .. Len(env[t].sh) -> 0 .. 2] ELSE {[k \in 1 .. Len(env[t].sh) |-> 0]}}

Number(b, sh, base) == [b |-> b, sh |-> sh, ad |-> [i \in 1 .. Prod(sh) |-> i]]
Init == \E sh \in Shapes, so \in Sources :
    /\ heap = (1 :> [i \in 1 .. Prod(sh) |-> i]) @@ (2 :> [i \in 1 .. Prod(so) |-> 10 + i])
    /\ env = (1 :> Number(1, sh, 0)) @@ (2 :> Number(2, so, 10))
    /\ hist = <<"n " \o (IF sh = <<>> THEN "_" ELSE AxTxt(sh)), "n " \o (IF so = <<>> THEN "_" ELSE AxTxt(so))>>
    /\ nv = 0 /\ nw = 0 /\ last = 0
Mine == {t \in DOMAIN env : env[t].b = 1}
NextView ==
    /\ nv < MaxViews /\ nw = 0
    /\ \E src \in {1, Cardinality(DOMAIN env)} \ {2} : \E x \in Views(env[src].sh) :
        LET m == ViewMeaning(x[1], x[2], env[src].sh, "C")
            t == Cardinality(DOMAIN env) + 1
        IN  /\ m.ok
            /\ Prod(m.sh) <= 12
            /\ env' = (t :> ViewOf(m, env[src])) @@ env
            /\ hist' = Append(hist, "v " \o ToString(src) \o " " \o x[3])
            /\ heap' = heap /\ nv' = nv + 1 /\ nw' = nw /\ last' = 0
\* writes that the library does not promise anything about: updates of elements that several positions share
Judged(op, t) == op \in {"fill", "assign"} \/ ~IsBroadcast(env[t])
NextWrite ==
    /\ nw < MaxWrites
    /\ \E t \in Mine : \E x \in Writes(t) :
        LET m == WriteMeaning(x[1], x[2], t, "C") IN
        /\ Judged(x[1], t)
        /\ IF m.ok THEN Write(t, LAMBDA p : m.val[p]) ELSE Reject
        /\ hist' = Append(hist, "w " \o ToString(t) \o " " \o x[3])
        /\ nv' = nv /\ nw' = nw + 1
        /\ last' = IF m.ok THEN t ELSE -t
Next == NextView \/ NextWrite
vars == <<heap, env, hist, nv, nw, last>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is checked
Cells(t) == Rng(env[t].ad)
OnlyAddressed == [][nw' = nw + 1 =>
    /\ DOMAIN heap' = DOMAIN heap
    /\ IF last' < 0 THEN heap' = heap
       ELSE /\ FrameOf(last')
            /\ \A b \in DOMAIN heap : \A i \in DOMAIN heap[b] : (b # env[last'].b \/ i \notin Cells(last')) => heap'[b][i] = heap[b][i]]_vars
SourceKept == heap[2] = [i \in 1 .. Len(heap[2]) |-> 10 + i]
\* the written tensor reads as the values, and writing cell by cell in any of four orders gives the same heap
Orders(n, sh) == {[i \in 1 .. n |-> i], [i \in 1 .. n |-> n + 1 - i], [i \in 1 .. n |-> PosAtRank(i - 1, sh, "F") + 1], [i \in 1 .. n |-> n - PosAtRank(i - 1, sh, "F")]}
AnyOrder == nw = 0 => \A t \in Mine : \A x \in Writes(t) :
    LET m == WriteMeaning(x[1], x[2], t, "C")
        e == env[t]
    IN  Judged(x[1], t) /\ m.ok =>
          LET h == Written(t, LAMBDA p : m.val[p]) IN
          /\ ContentIn(h, e) = [i \in 1 .. Len(e.ad) |-> m.val[i - 1]]
          /\ \A q \in Orders(Len(e.ad), e.sh) :
                FoldLeft(LAMBDA buf, k : [buf EXCEPT ![e.ad[k]] = m.val[k - 1]], heap[1], q) = h[1]
RefusedRight == nw = 0 => \A t \in Mine : \A x \in Writes(t) : Judged(x[1], t) =>
    LET m == WriteMeaning(x[1], x[2], t, "C") IN
    m.ok <=> CASE x[1] = "fill" -> ~IsBroadcast(env[t])
               [] x[1] = "assign" -> ~IsBroadcast(env[t]) /\ BcOk2(env[2].sh, env[t].sh, "C") /\ BcShape2(env[2].sh, env[t].sh, "C") = env[t].sh
               [] x[1] \in {"opassign", "without"} -> BcOk2(env[2].sh, env[t].sh, "C") /\ BcShape2(env[2].sh, env[t].sh, "C") = env[t].sh
               [] x[1] = "elem" -> ValidIdx(x[2].idx, env[t].sh)
               [] OTHER -> TRUE
EmitHist == Emit /\ nw > 0 => PrintT("HIST " \o FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o ";" \o y, "", hist))
ShapesQuick == {<<2, 3>>, <<3>>, <<0, 2>>, <<>>}
ShapesDeep == {<<2, 3>>, <<3>>, <<3, 3>>, <<2, 1, 2>>, <<2, 0>>, <<>>}
SourcesQuick == {<<3>>, <<2, 1>>, <<>>}
SourcesDeep == {<<2, 3>>, <<3>>, <<2, 1>>, <<1>>, <<>>, <<2>>, <<2, 2, 3>>}
===============================================================================
