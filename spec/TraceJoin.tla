------------------------------ MODULE TraceJoin -------------------------------
(***************************************************************************)
(* Validation of recorded joins, splits, grids, diagonals, minimum-rank    *)
(* forms and selections.                                                   *)
(***************************************************************************)
EXTENDS Join, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Shapes(parts) == [i \in DOMAIN parts |-> parts[i].sh]
Is(got, parts, x) == got.sh = x.sh /\ got.v = Fetch(parts, x)
One(e, parts, x) == IF ~x.ok THEN Refused(e) ELSE e.r.k = "ok" /\ Is(e.r, parts, x)

\* several results
UnstackGood(e) ==
    LET ax == Opt(e.axis, 0) IN
    IF ~UnstackOk(e.a.sh, ax) THEN Refused(e)
    ELSE LET n == e.a.sh[NormAx(ax, Len(e.a.sh)) + 1] IN
         /\ e.r.k = "ok" /\ Len(e.r.parts) = n
         /\ \A j \in 1 .. n : Is(e.r.parts[j], <<e.a>>, UnstackPart(e.a.sh, ax, j - 1))
GridGood(e) ==
    IF (\E i \in DOMAIN e.parts : Len(e.parts[i].sh) # 1) \/ e.bad THEN Refused(e)
    ELSE LET ns == [i \in DOMAIN e.parts |-> e.parts[i].sh[1]] IN
         /\ e.r.k = "ok" /\ Len(e.r.parts) = Len(ns)
         /\ \A j \in DOMAIN ns : Is(e.r.parts[j], e.parts, Grid(ns, e.xy, j))
\* a mask of another length than the axis is refused, or counts as false beyond its end
MaskGood(e) ==
    LET x == Select(e.a.sh, e.axis, MaskIdx(e.mask)) IN
    IF x.ok /\ Len(e.mask) # e.a.sh[NormAx(e.axis, Len(e.a.sh)) + 1]
    THEN Refused(e) \/ One(e, <<e.a>>, x) ELSE One(e, <<e.a>>, x)

Good(e) ==
    /\ e.same                               \* the operands are as they were
    /\ "leak" \in DOMAIN e => e.leak = 0    \* elements that own memory are dropped exactly once
    /\ CASE e.e = "join" -> IF e.mix THEN Refused(e) ELSE One(e, e.parts, Joined(e.op, Shapes(e.parts), e.axis))
         [] e.e = "unstack" -> UnstackGood(e)
         [] e.e = "grid" -> IF e.mix THEN Refused(e) ELSE GridGood(e)
         [] e.e = "diag" -> One(e, <<e.a>>, Diag(e.a.sh, e.off))
         [] e.e = "atleast" -> e.r.k = "ok" /\ e.r.sh = AtLeast(e.a.sh, e.n) /\ e.r.v = e.a.v
         [] e.e = "sel" -> One(e, <<e.a>>, Select(e.a.sh, e.axis, e.idx))
         [] e.e = "mask" -> MaskGood(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (IF e.e = "join" /\ ~e.mix THEN ToString(Joined(e.op, Shapes(e.parts), e.axis)) ELSE "judge"))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
