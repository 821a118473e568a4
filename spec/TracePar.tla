------------------------------- MODULE TracePar -------------------------------
(***************************************************************************)
(* Validation of recorded parallel loops over instrumented elements.  The  *)
(* elements of the sources are their own cell numbers; a destination       *)
(* element tells how often it was written and from which source cells.     *)
(* Par.tla shows that every interleaving of workers over disjoint ranges   *)
(* leaves exactly this behind; the records here must agree with it.        *)
(***************************************************************************)
EXTENDS NdArray, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Sum(xs) == FoldLeft(LAMBDA a, x : a + x, 0, xs)
Ones(n) == [p \in 1 .. n |-> 1]

\* the cells of source j that are read for the places of shape sh, plus one
From(e, j, sh) ==
    LET x == e.src[j]
        d == Len(sh) - Len(x.sh)
        w == [k \in 1 .. Len(sh) |->
                LET i == IF e.order = "C" THEN k - d ELSE k IN
                IF i < 1 \/ i > Len(x.sh) THEN 0 ELSE IF x.sh[i] = 1 THEN 0 ELSE x.st[i]]
        a == AddrSeq(sh, w, x.of)
    IN  [p \in DOMAIN a |-> a[p] + 1]
Both(e) == BcShape2(e.src[1].sh, e.src[2].sh, e.order)
N(e) == Prod(e.dst.sh)

\* a new tensor: every place was computed once, from the right cells
Fresh(e, sh, two) ==
    /\ e.r.k = "ok" /\ e.r.sh = sh
    /\ e.r.n = Ones(Prod(sh))
    /\ e.r.a = From(e, 1, sh)
    /\ (two => e.r.b = From(e, 2, sh))
    /\ e.calls = Prod(sh)
\* into a given tensor: its cells, and no other cell of the buffer
Into(e, Val(_)) ==
    LET ad == AddrSeq(e.dst.sh, e.dst.st, e.dst.of) IN
    /\ e.r.k = "ok" /\ Len(e.r.n) = e.dst.len
    /\ \A p \in DOMAIN ad : e.r.n[ad[p] + 1] = 1
    /\ Sum(e.r.n) = N(e)
    /\ Val(ad)
    /\ e.calls = N(e)
NewCells(e, C(_)) ==
    LET ad == AddrSeq(e.dst.sh, e.dst.st, e.dst.of)
        was == [i \in 1 .. e.dst.len |-> 900000 + i]
        new == FoldLeft(LAMBDA c, x : c + x, 0, [i \in 1 .. e.dst.len |-> IF e.r.a[i] = was[i] THEN 1 ELSE 0])
    IN  /\ e.r.k = "ok" /\ Len(e.r.a) = e.dst.len
        /\ C(ad)
        /\ new = e.dst.len - N(e)
\* where no two places share a cell, every cell was read once; in total there is one reading per place
ReadOnce(e) ==
    LET f == From(e, 2, e.dst.sh) IN
    /\ Sum(e.reads) = N(e)
    /\ \A p \in DOMAIN f : e.reads[f[p]] >= 1

Good(e) ==
    CASE e.op \in {"add", "mapb"} -> Fresh(e, Both(e), TRUE)
      [] e.op = "map" -> Fresh(e, e.src[1].sh, FALSE)
      [] e.op = "addout" ->
            IF ~(BcOk2(Both(e), e.dst.sh, e.order) /\ Both(e) = e.dst.sh)
            THEN e.r.k \in {"ok", "err"}
            ELSE LET x == From(e, 1, e.dst.sh)
                     y == From(e, 2, e.dst.sh)
                 IN Into(e, LAMBDA ad : \A p \in DOMAIN ad : e.r.a[ad[p] + 1] = x[p] /\ e.r.b[ad[p] + 1] = y[p])
      [] e.op = "addassign" -> LET y == From(e, 2, e.dst.sh) IN Into(e, LAMBDA ad : \A p \in DOMAIN ad : e.r.b[ad[p] + 1] = y[p])
      [] e.op = "mapi" -> Into(e, LAMBDA ad : TRUE)
      [] e.op = "assign" -> LET y == From(e, 2, e.dst.sh) IN NewCells(e, LAMBDA ad : \A p \in DOMAIN ad : e.r.a[ad[p] + 1] = y[p]) /\ ReadOnce(e)
      [] e.op = "fill" -> NewCells(e, LAMBDA ad : \A p \in DOMAIN ad : e.r.a[ad[p] + 1] = 5)
      [] e.op \in {"copy", "tr"} -> e.r.k = "ok" /\ e.r.sh = e.src[1].sh /\ e.r.a = From(e, 1, e.src[1].sh)
      [] e.op = "reshape" -> \* the sequence in the order of the device is kept
            LET x == e.src[1] IN
            /\ e.r.k = "ok" /\ e.r.sh = e.idx
            /\ e.r.a = LET a == IF e.order = "C" THEN AddrSeq(x.sh, x.st, x.of) ELSE AddrSeq(RevSeq(x.sh), RevSeq(x.st), x.of)
                        IN  [p \in DOMAIN a |-> a[p] + 1]
      [] e.op = "scal" -> LET f == From(e, 1, e.src[1].sh) IN e.r.k = "ok" /\ e.r.sh = e.src[1].sh /\ e.r.a = [p \in DOMAIN f |-> 999999 + f[p]]
      [] e.op = "numl" -> LET f == From(e, 1, e.src[1].sh) IN e.r.k = "ok" /\ e.r.sh = e.src[1].sh /\ e.r.a = [p \in DOMAIN f |-> 1000001 - f[p]]
      [] e.op = "scalas" ->
            LET ad == Rng(AddrSeq(e.dst.sh, e.dst.st, e.dst.of))
            IN  e.r.k = "ok" /\ e.r.a = [i \in 1 .. e.dst.len |-> (i - 1) + (IF (i - 1) \in ad THEN 1000000 ELSE 0)]
      [] e.op = "select" ->
            IF e.r.k = "none" THEN TRUE
            ELSE LET sh == e.src[1].sh
                     ax == e.axis + 1
                     n == sh[ax]
                     os == [sh EXCEPT ![ax] = Len(e.idx)]
                     at == [k \in DOMAIN e.idx |-> IF e.idx[k] < 0 THEN e.idx[k] + n ELSE e.idx[k]]
                     cs == CStr(os)
                 IN  /\ e.r.k = "ok" /\ e.r.sh = os
                     /\ e.r.a = [p \in 1 .. Prod(os) |->
                            LET x == UnravelW(p - 1, os, cs)
                                y == [x EXCEPT ![ax] = at[x[ax] + 1]]
                            IN  e.src[1].of + Dot(y, e.src[1].st) + 1]

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o e.op)
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
