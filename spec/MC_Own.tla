-------------------------------- MODULE MC_Own --------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of OwnMachine: every sequence of at most *)
(* Depth steps over at most MaxLive handles.  Checks that no step changes  *)
(* what an untouched handle contains, and prints every maximal sequence.   *)
(***************************************************************************)
EXTENDS OwnMachine
CONSTANTS Depth, MaxLive, Emit
VARIABLES hist, touched, prev, nextt, nextb

Inits == {"C", "F", "gap", "ext"}
Cells(i) == CASE i = "C" -> <<1, 2, 3, 4>> [] i = "F" -> <<1, 3, 2, 4>> [] i = "gap" -> <<2, 4, 6, 8>> [] i = "ext" -> <<1, 2, 3, 4>>
Size(i) == IF i = "gap" THEN 9 ELSE 4
Init == \E i \in Inits :
    /\ heap = (1 :> [c \in 1 .. Size(i) |-> c])
    /\ env = (1 :> [k |-> IF i = "ext" THEN "ext" ELSE "owned", b |-> 1, sh |-> <<2, 2>>, ad |-> Cells(i), from |-> 0])
    /\ hist = <<i>>
    /\ touched = {}
    /\ prev = [t \in {} |-> <<>>]
    /\ nextt = 2
    /\ nextb = 2
Txt(op, h, g, x) == op \o "," \o ToString(h) \o "," \o ToString(g) \o "," \o ToString(x)
Restr(f, S) == [d \in S |-> f[d]]
Live(E) == {E[t].b : t \in DOMAIN E}
\* the cells of a kept buffer that carry the result
KeptCells(op, h, x, val, sh) ==
    IF op = "row" THEN LET m == SliceOp(env[h].sh, <<[k |-> "i", v |-> x]>>) IN [i \in 1 .. Prod(m.sh) |-> env[h].ad[m.src[i - 1] + 1]]
    ELSE IF op = "T" THEN LET m == ReverseAxesOp(env[h].sh) IN [i \in 1 .. Prod(m.sh) |-> env[h].ad[m.src[i - 1] + 1]]
    ELSE env[h].ad

Common(op, h, g, x) ==
    /\ hist' = Append(hist, Txt(op, h, g, x))
    /\ prev' = [t \in DOMAIN env |-> Val(t)]
StepMove(op, h, g, x) ==
    LET m == Meaning(op, h, g, x) IN
    /\ m.ok
    /\ Common(op, h, g, x)
    /\ touched' = m.gone
    /\ LET rest == Restr(env, DOMAIN env \ m.gone) IN
       IF m.k = "none" THEN /\ env' = rest /\ heap' = Restr(heap, Live(rest)) /\ UNCHANGED <<nextt, nextb>>
       ELSE /\ Cardinality(DOMAIN rest) < MaxLive
            /\ nextt' = nextt + 1
            /\ \E b \in m.same \cup (IF m.must THEN {} ELSE {nextb}) :
                 LET by == IF b = env[h].b THEN h ELSE g
                     ad == IF b \in m.same THEN KeptCells(op, by, x, m.val, m.sh)
                           ELSE IF m.keepl THEN env[h].ad ELSE [i \in 1 .. Len(m.val) |-> i]
                     buf == IF b \in m.same THEN (IF m.pure THEN heap[b] ELSE Put(heap[b], ad, m.val))
                            ELSE IF m.keepl THEN heap[env[h].b] ELSE m.val
                     from == IF m.k # "cowR" THEN 0 ELSE IF op = "borrow" THEN h ELSE env[h].from
                     E2 == (nextt :> [k |-> m.k, b |-> b, sh |-> m.sh, ad |-> ad, from |-> from]) @@ rest
                 IN  /\ env' = E2
                     /\ nextb' = IF b = nextb THEN nextb + 1 ELSE nextb
                     /\ heap' = Restr((b :> buf) @@ heap, Live(E2))
StepWrite(op, h, g, x) ==
    /\ WriteOn(op, h, g)
    /\ Common(op, h, g, x)
    /\ touched' = {h}
    /\ UNCHANGED nextt
    /\ LET val == WriteVal(op, h, g, x)
           b == IF WriteSame(h) # {} THEN env[h].b ELSE nextb
       IN  /\ heap' = (b :> Put(heap[env[h].b], env[h].ad, val)) @@ heap
           /\ env' = [env EXCEPT ![h].b = b]
           /\ nextb' = IF b = nextb THEN nextb + 1 ELSE nextb
One == {"own", "ownk", "share", "sharek", "cow", "borrow", "copy", "clone", "dup", "T", "vec", "drop"}
Next ==
    /\ Len(hist) <= Depth
    /\ \E h \in DOMAIN env :
         \/ \E op \in One : StepMove(op, h, 0, 0)
         \/ StepMove("row", h, 0, 1)
         \/ \E x \in {0, 1} : StepMove("neg", h, 0, x)
         \/ \E g \in DOMAIN env, x \in 0 .. 3 : StepMove("sub", h, g, x)
         \/ StepWrite("set", h, 0, 50 + Len(hist))
         \/ StepWrite("add", h, 0, 10)
         \/ \E g \in DOMAIN env : StepWrite("addt", h, g, 0)
vars == <<heap, env, hist, touched, prev, nextt, nextb>>
Spec == Init /\ [][Next]_vars

\* a handle that the last step neither consumed nor wrote contains what it contained before
NoLeak == \A t \in DOMAIN env \cap DOMAIN prev : t \notin touched => Val(t) = prev[t]
EmitChain == Emit /\ Len(hist) = Depth + 1 => PrintT("CHAIN " \o FoldLeft(LAMBDA a, y : IF a = "" THEN y ELSE a \o ";" \o y, "", hist))
===============================================================================
