----------------------------- MODULE TraceMachine -----------------------------
(***************************************************************************)
(* Trace validation for the tensor machine.  The file named by TRACE holds *)
(* one session per line; every session is checked as one behaviour of      *)
(* TensorMachine: each recorded event must be a transition the machine     *)
(* allows, with the recorded result.  A session whose event is not allowed *)
(* prints FAIL and stops.                                                  *)
(***************************************************************************)
EXTENDS TensorMachine, Json, IOUtils
VARIABLES s, l, ok

Sess == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, k) == Sess[i].ev[k]

\* the tensor denoted by a recorded layout over buffer b
FromLayout(b, sh, st, of) == [b |-> b, sh |-> sh, ad |-> [i \in 1 .. Prod(sh) |-> AddrSeq(sh, st, of)[i] + 1]]

\* ------------------------------------------------------------ what each event claims
\* a view must denote the expected cells of the same buffer; the strides of axes that are not
\* traversed are irrelevant, and so is the offset of an empty view (if it is a number at all)
ViewRight(e, m) ==
    LET r == e.r IN
    IF m.ok
    THEN /\ r.k = "ok"
         /\ r.sh = m.sh
         /\ r.b = env[e.src].b
         /\ IF Prod(m.sh) = 0 THEN r.of >= 0 /\ r.of < 1900000000
            ELSE [i \in 1 .. Prod(r.sh) |-> AddrSeq(r.sh, r.st, r.of)[i] + 1] = ViewOf(m, env[e.src]).ad
    ELSE r.k = (IF e.inf THEN "panic" ELSE "err")
ReadRight(e) == e.r.k = "ok" /\ e.r.v = Content(e.t)
ElemRight(e) ==
    LET t == env[e.t] IN
    IF ValidIdx(e.idx, t.sh) THEN e.k = "ok" /\ e.v = Content(e.t)[Ravel(e.idx, t.sh) + 1]
    ELSE e.k = "panic"

\* a conversion: shares the source's storage with exactly the denoted cells, or has a fresh buffer
\* with exactly the denoted content
MatRight(e, m, old) ==
    LET r == e.r
        refused == IF e.inf THEN "panic" ELSE "err"
    IN
    IF ~m.ok THEN r.k = refused
    ELSE LET v == ViewOf(m, old)
             copyarg == IF e.op = "reshape" /\ Len(e.a.copy) = 1 THEN e.a.copy[1] ELSE FALSE
             nocopy == e.nocopy \/ (e.op = "reshape" /\ e.a.copy = <<FALSE>>)
             viewable == Affine(v.ad, m.sh)
         IN  IF nocopy /\ ~viewable THEN r.k = refused
             ELSE /\ r.k = "ok"
                  /\ r.sh = m.sh
                  /\ IF r.b = old.b
                     THEN /\ heap[old.b] = <<>> \/ (~copyarg /\ ~e.own)
                          /\ IF Prod(m.sh) = 0 THEN r.of >= 0 /\ r.of < 1900000000
                             ELSE [i \in 1 .. Prod(r.sh) |-> AddrSeq(r.sh, r.st, r.of)[i] + 1] = v.ad
                     ELSE /\ r.b \notin DOMAIN heap
                          /\ LET ad == AddrSeq(r.sh, r.st, r.of) IN
                             /\ \A i \in DOMAIN ad : ad[i] >= 0 /\ ad[i] < Len(r.data)
                             /\ \A i \in DOMAIN ad : r.data[ad[i] + 1] = heap[old.b][v.ad[i]]
                  /\ e.op = "contig" => ContigStrides(r.sh, r.st, e.a.order)
                  /\ e.op = "asarray" /\ e.a.order # "K" => ContigStrides(r.sh, r.st, e.a.order)
                  /\ e.op = "layout" /\ e.how < 4 => r.st = e.a.st /\ r.of = e.a.of
                  /\ e.op = "reshape" /\ r.b # old.b /\ (copyarg \/ ~viewable) => ContigStrides(r.sh, r.st, Opt(e.a.order, e.o))
MatHeap(e, m) == IF m.ok /\ e.r.k = "ok" /\ e.r.b \notin DOMAIN heap THEN (e.r.b :> e.r.data) @@ heap ELSE heap
ViewableRight(e) ==
    LET old == env[e.t]
        src == ReshapeSrc(old.sh, e.sh, e.order)
    IN  e.r.k = "ok" /\ e.r.v = Affine([i \in 1 .. Prod(e.sh) |-> old.ad[src[i - 1] + 1]], e.sh)
VecRight(e) == IF Len(env[e.t].sh) = 1 THEN e.r.k = "ok" /\ e.r.v = Content(e.t)
               ELSE e.r.k = (IF e.inf THEN "panic" ELSE "err")
ScalarRight(e) == IF Prod(env[e.t].sh) = 1 THEN e.r.k = "ok" /\ e.r.v = Content(e.t)[1]
                  ELSE e.r.k = (IF e.inf THEN "panic" ELSE "err")

\* a write changes exactly the addressed cells; a refused write changes nothing; operands are kept.
\* (fill and assign may also refuse a target with a stride of zero on an axis that is never traversed)
HeapIs(e, h) == DOMAIN h = DOMAIN e.heap /\ \A b \in DOMAIN h : h[b] = e.heap[b]
WriteRight(e, m) ==
    /\ e.kept
    /\ IF m.ok /\ ~(e.z /\ e.op \in {"fill", "assign"} /\ e.r.k # "ok")
       THEN e.r.k = "ok" /\ HeapIs(e, Written(e.t, LAMBDA p : m.val[p]))
       ELSE e.r.k = (IF e.inf THEN "panic" ELSE "err") /\ HeapIs(e, heap)
Explain(e) ==
    CASE e.e = "view" -> ViewMeaning(e.op, e.a, env[e.src].sh, e.o)
      [] e.e = "read" -> Content(e.t)
      [] e.e = "mat" -> [env |-> env[e.src], m |-> MatMeaning(e.op, e.a, env[e.src].sh, e.o), heap |-> heap]
      [] e.e = "write" -> [env |-> env[e.t], m |-> WriteMeaning(e.op, e.a, e.t, e.o), heap |-> heap]
      [] OTHER -> [env |-> env[e.t], c |-> Content(e.t)]

Fail(e) == /\ PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o ToString(Explain(e)))
           /\ ok' = FALSE
           /\ UNCHANGED <<heap, env>>

Init == /\ s \in 1 .. Len(Sess)
        /\ l = 1
        /\ heap = [b \in {} |-> <<>>]
        /\ env = [t \in {} |-> <<>>]
        /\ ok = TRUE
Step(e) ==
    CASE e.e = "new" ->
           /\ Alloc(e.t, e.b, e.data, FromLayout(e.b, e.sh, e.st, e.of))
           /\ ok' = TRUE
      [] e.e = "view" ->
           LET m == ViewMeaning(e.op, e.a, env[e.src].sh, e.o) IN
           IF ~ViewRight(e, m) THEN Fail(e)
           ELSE /\ ok' = TRUE
                /\ UNCHANGED heap
                /\ env' = IF m.ok THEN (e.t :> ViewOf(m, env[e.src])) @@ env ELSE env
      [] e.e = "read" -> IF ReadRight(e) THEN ok' = TRUE /\ UNCHANGED <<heap, env>> ELSE Fail(e)
      [] e.e = "elem" -> IF ElemRight(e) THEN ok' = TRUE /\ UNCHANGED <<heap, env>> ELSE Fail(e)
      [] e.e = "mat" ->
           LET old == env[e.src]
               m == MatMeaning(e.op, e.a, old.sh, e.o)
               h == MatHeap(e, m)
           IN
           IF ~MatRight(e, m, old) \/ ~HeapIs(e, h) THEN Fail(e)
           ELSE /\ ok' = TRUE
                /\ heap' = h
                /\ env' = IF e.r.k # "ok" THEN env
                          ELSE (e.t :> IF e.r.b = old.b THEN ViewOf(m, old) ELSE FromLayout(e.r.b, e.r.sh, e.r.st, e.r.of)) @@ env
      [] e.e = "write" ->
           LET m == WriteMeaning(e.op, e.a, e.t, e.o) IN
           IF ~WriteRight(e, m) THEN Fail(e)
           ELSE /\ ok' = TRUE
                /\ UNCHANGED env
                /\ heap' = IF e.r.k = "ok" THEN Written(e.t, LAMBDA p : m.val[p]) ELSE heap
      [] e.e = "viewable" -> IF ViewableRight(e) THEN ok' = TRUE /\ UNCHANGED <<heap, env>> ELSE Fail(e)
      [] e.e = "vec" -> IF VecRight(e) THEN ok' = TRUE /\ UNCHANGED <<heap, env>> ELSE Fail(e)
      [] e.e = "scalar" -> IF ScalarRight(e) THEN ok' = TRUE /\ UNCHANGED <<heap, env>> ELSE Fail(e)
Next == /\ ok
        /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ Step(Ev(s, l))
vars == <<heap, env, s, l, ok>>
Spec == Init /\ [][Next]_vars
Safe == ok => InBounds
===============================================================================
