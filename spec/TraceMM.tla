------------------------------- MODULE TraceMM --------------------------------
(***************************************************************************)
(* Validation of recorded matrix products and vector dots: those that      *)
(* return a new tensor (only the logical content counts) and those that    *)
(* write into an existing one (every cell of its buffer counts).           *)
(***************************************************************************)
EXTENDS MatMul, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Plan(e) == IF e.e \in {"mm", "mminto"} THEN MMPlan(e.a.sh, e.b.sh, e.order)
           ELSE VDPlan(e.a.sh, e.b.sh, e.kind, e.axa, e.axb, e.order)
Sign(e) == IF e.e \in {"vd", "vdinto"} THEN -1 ELSE 1

NewGood(e, pl) ==
    LET w == Values(e.a, e.b, pl, Sign(e)) IN
    /\ e.r.k = "ok" /\ e.r.sh = pl.sh
    /\ e.r.v = [p \in DOMAIN w |-> w[p][1]]
    /\ (Len(e.r.im) > 0 => e.r.im = [p \in DOMAIN w |-> w[p][2]])

Alpha(e) == IF e.e = "mminto" THEN e.alpha ELSE 1
Beta(e) == IF e.e = "mminto" THEN e.beta ELSE 0
\* the cells of c become alpha * (a b) + beta * c; everything else keeps its value
IntoGood(e, pl) ==
    LET w == Values(e.a, e.b, pl, Sign(e))
        ad == AddrSeq(e.c.sh, e.c.st, e.c.of)
        at == {ad[p] + 1 : p \in DOMAIN ad}
        Was(b, i) == IF Beta(e) = 0 THEN 0 ELSE Beta(e) * b[i]
    IN
    /\ e.r.k = "ok"
    /\ \A p \in DOMAIN ad : e.r.buf[ad[p] + 1] = Alpha(e) * w[p][1] + Was(e.c.buf, ad[p] + 1)
    /\ \A i \in DOMAIN e.c.buf : i \notin at => e.r.buf[i] = e.c.buf[i]
    /\ (Len(e.c.bim) > 0 =>
          /\ \A p \in DOMAIN ad : e.r.bim[ad[p] + 1] = Alpha(e) * w[p][2] + Was(e.c.bim, ad[p] + 1)
          /\ \A i \in DOMAIN e.c.bim : i \notin at => e.r.bim[i] = e.c.bim[i])

\* an output of another shape is refused, except that a product may be repeated over further batch axes
Repeats(e, pl) == e.e = "mminto" /\ BcOk2(pl.sh, e.c.sh, e.order) /\ BcShape2(pl.sh, e.c.sh, e.order) = e.c.sh
Stretch(e, pl) == [pl EXCEPT !.sh = e.c.sh, !.wa = BcW(pl.sh, pl.wa, e.c.sh, e.order), !.wb = BcW(pl.sh, pl.wb, e.c.sh, e.order)]

Good(e) ==
    LET pl == Plan(e) IN
    IF ~pl.ok THEN Refused(e)
    ELSE IF e.e \in {"mm", "vd"} THEN NewGood(e, pl)
    ELSE IF e.c.sh = pl.sh THEN IntoGood(e, pl)
    ELSE \/ Refused(e)
         \/ (Repeats(e, pl) /\ IntoGood(e, Stretch(e, pl)))
         \/ (Prod(e.c.sh) = 0 /\ e.r.k = "ok" /\ e.r.buf = e.c.buf)   \* nothing to write: may not be noticed

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (LET pl == Plan(e) IN IF pl.ok /\ Len(e.a.v) < 200 THEN ToString(<<pl.sh, Values(e.a, e.b, pl, Sign(e))>>) ELSE ToString(pl.ok)))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
