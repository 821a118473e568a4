------------------------------ MODULE OwnMachine ------------------------------
(***************************************************************************)
(* Ownership of tensor storage.  A handle is something the user holds: an  *)
(* owned tensor, a shared (reference counted) tensor, a copy-on-write      *)
(* tensor that owns or borrows, a plain vector, or a bare reference to     *)
(* shared storage.  A handle addresses some cells of one buffer.           *)
(*                                                                         *)
(*   env[t]  = [k, b, sh, ad, from]    k in Kinds, ad: 1-based cells of    *)
(*             buffer b in row-major order of the logical index, from: the *)
(*             handle that a borrowing handle borrows from (0: none)       *)
(*   heap[b] = the buffer's contents                                       *)
(*                                                                         *)
(* What the borrow checker enforces appears as enabling conditions         *)
(* (Frozen); everything else is the library's own responsibility.          *)
(***************************************************************************)
EXTENDS NdArray
VARIABLES heap, env

Kinds == {"owned", "arc", "cowO", "cowR", "vec", "ext"}
Holders(E, b) == {t \in DOMAIN E : E[t].b = b /\ E[t].k # "cowR"}
Frozen(t) == \E x \in DOMAIN env : env[x].k = "cowR" /\ env[x].from = t
Exclusive(t) == env[t].k \in {"owned", "cowO", "vec", "arc"} /\ Holders(env, env[t].b) = {t}
Full(t) == Rng(env[t].ad) = DOMAIN heap[env[t].b] /\ Len(env[t].ad) = Len(heap[env[t].b])
Val(t) == [i \in 1 .. Len(env[t].ad) |-> heap[env[t].b][env[t].ad[i]]]
ValIn(H, r) == [i \in 1 .. Len(r.ad) |-> H[r.b][r.ad[i]]]
Tensors == {"owned", "arc", "cowO", "cowR"}

\* ------------------------------------------------------------ the meaning of one step
(* A step names an operation, a handle h and possibly a second handle g.  Its meaning is a record:   *)
(*   ok     the step is offered by the API and allowed by the borrow rules                           *)
(*   gone   handles that are consumed                                                                *)
(*   k      kind of the resulting handle ("none": no result); a write's result is h itself           *)
(*   sh,val shape and content of the result                                                          *)
(*   same   buffers that the result may keep;  must: the result has to keep one of them              *)
(*   pure   a kept buffer keeps its whole contents                                                   *)
(*   keepl  the result must keep the layout (cells) of h, in a copy of the whole buffer              *)
Off == [ok |-> FALSE]
St(gone, k, sh, val, same, must, pure, keepl) ==
    [ok |-> TRUE, gone |-> gone, k |-> k, sh |-> sh, val |-> val, same |-> same, must |-> must, pure |-> pure, keepl |-> keepl]
Bset(t) == {env[t].b}
MayTake(t) == IF Exclusive(t) THEN Bset(t) ELSE {}

Meaning(op, h, g, x) ==
    LET e == env[h]
        v == Val(h)
        free == ~Frozen(h)
        T == e.k \in Tensors
    IN
    CASE op = "own" ->   \* into_owned: a move only of exclusively held data of full extent
           IF T /\ free THEN St({h}, "owned", e.sh, v, IF Full(h) THEN MayTake(h) ELSE {}, FALSE, TRUE, FALSE) ELSE Off
      [] op = "ownk" ->
           IF T /\ free THEN St({h}, "owned", e.sh, v, MayTake(h), FALSE, TRUE, TRUE) ELSE Off
      [] op = "share" -> \* sharing an already shared tensor keeps the storage
           IF T /\ free THEN St({h}, "arc", e.sh, v, IF Full(h) THEN (IF e.k = "arc" THEN Bset(h) ELSE MayTake(h)) ELSE {}, FALSE, TRUE, FALSE) ELSE Off
      [] op = "sharek" ->
           IF T /\ free THEN St({h}, "arc", e.sh, v, IF e.k = "arc" THEN Bset(h) ELSE MayTake(h), FALSE, TRUE, TRUE) ELSE Off
      [] op = "cow" ->
           IF e.k \in {"owned", "arc", "cowO"} /\ free THEN St({h}, "cowO", e.sh, v, MayTake(h), e.k # "arc", TRUE, TRUE) ELSE Off
      [] op = "borrow" ->
           IF e.k \in {"owned", "arc", "cowO"} THEN St({}, "cowR", e.sh, v, Bset(h), TRUE, TRUE, TRUE) ELSE Off
      [] op = "copy" ->  \* to_owned, Clone
           IF T THEN St({}, "owned", e.sh, v, {}, FALSE, TRUE, FALSE) ELSE Off
      [] op = "clone" -> \* Clone of a copy-on-write tensor owns its data
           IF e.k \in {"cowO", "cowR"} THEN St({}, "cowO", e.sh, v, {}, FALSE, TRUE, FALSE) ELSE Off
      [] op = "dup" ->   \* another shared tensor over the same storage (of full extent, row-major)
           IF e.k = "ext" THEN St({}, "arc", e.sh, v, Bset(h), TRUE, TRUE, TRUE) ELSE Off
      [] op = "row" ->   \* consuming index: the same owner kind over the same storage
           IF T /\ free /\ Len(e.sh) >= 1 /\ e.sh[1] > x
           THEN LET m == SliceOp(e.sh, <<[k |-> "i", v |-> x]>>) IN
                St({h}, e.k, m.sh, [i \in 1 .. Prod(m.sh) |-> v[m.src[i - 1] + 1]], Bset(h), TRUE, TRUE, FALSE) ELSE Off
      [] op = "T" ->
           IF T /\ free
           THEN LET m == ReverseAxesOp(e.sh) IN
                St({h}, e.k, m.sh, [i \in 1 .. Prod(m.sh) |-> v[m.src[i - 1] + 1]], Bset(h), TRUE, TRUE, FALSE) ELSE Off
      [] op = "neg" ->   \* -t, consuming (x = 0) or by reference (x = 1)
           IF (e.k = "owned" /\ free) \/ (T /\ x = 1)
           THEN St(IF x = 0 THEN {h} ELSE {}, "owned", e.sh, [i \in DOMAIN v |-> -v[i]], IF x = 0 THEN MayTake(h) ELSE {}, FALSE, FALSE, FALSE) ELSE Off
      [] op = "sub" ->   \* h - g; bit 1 of x: h by value, bit 2: g by value
           IF /\ T /\ g # h /\ env[g].k \in Tensors /\ env[g].sh = e.sh
              /\ x \in {1, 3} => free /\ e.k # "arc"
              /\ x \in {2, 3} => ~Frozen(g) /\ env[g].k # "arc"
           THEN LET w == Val(g)
                    gone == (IF x \in {1, 3} THEN {h} ELSE {}) \cup (IF x \in {2, 3} THEN {g} ELSE {})
                IN  \* a borrow ends only after the operation: what a consumed borrower borrowed from stays
                    St(gone, "owned", e.sh, [i \in DOMAIN v |-> v[i] - w[i]], UNION {MayTake(t) : t \in gone}, FALSE, FALSE, FALSE)
           ELSE Off
      [] op = "vec" ->   \* into_vec of a one-dimensional owned tensor
           IF e.k = "owned" /\ free /\ Len(e.sh) = 1 THEN St({h}, "vec", e.sh, v, MayTake(h), FALSE, TRUE, FALSE) ELSE Off
      [] op = "drop" -> IF free THEN St({h}, "none", <<>>, <<>>, {}, FALSE, TRUE, FALSE) ELSE Off
      [] OTHER -> Off

\* writes: the new content of h
WriteVal(op, h, g, x) ==
    LET v == Val(h) IN
    CASE op = "set" -> [v EXCEPT ![1] = x]                       \* one element
      [] op = "fill" -> [i \in DOMAIN v |-> x]
      [] op = "add" -> [i \in DOMAIN v |-> v[i] + x]
      [] op = "assign" -> Val(g)
      [] op = "addt" -> [i \in DOMAIN v |-> v[i] + Val(g)[i]]
WriteOps == {"set", "fill", "add", "assign", "addt"}
WriteOn(op, h, g) == /\ env[h].k \in {"owned", "arc"} /\ ~Frozen(h)
                     /\ op \in {"assign", "addt"} => g # h /\ env[g].k \in Tensors /\ env[g].sh = env[h].sh
\* the buffers a written handle may end with: its own unless somebody else holds it as well
WriteSame(h) == MayTake(h)
Put(buf, ad, val) == [c \in DOMAIN buf |-> IF \E i \in DOMAIN ad : ad[i] = c THEN val[CHOOSE i \in DOMAIN ad : ad[i] = c] ELSE buf[c]]

\* ------------------------------------------------------------ guarantees
\* every buffer is owned by one owner, or by shared holders only; borrows have live lenders
Ownership ==
    /\ \A t \in DOMAIN env : env[t].k \in {"owned", "cowO", "vec"} => Holders(env, env[t].b) = {t}
    /\ \A t \in DOMAIN env : env[t].k = "cowR" => env[t].from \in DOMAIN env /\ env[env[t].from].b = env[t].b
    /\ \A t \in DOMAIN env : \A i \in DOMAIN env[t].ad : env[t].ad[i] \in DOMAIN heap[env[t].b]
===============================================================================
