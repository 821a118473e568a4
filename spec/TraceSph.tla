------------------------------- MODULE TraceSph -------------------------------
(***************************************************************************)
(* Validation of recorded quadrature rules against Sphere.                 *)
(***************************************************************************)
EXTENDS Sphere, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Tol == 100
Zero == <<0, 0>>
One == <<L, 0>>
GoodMap(e) ==
    IF e.back THEN IF IsSize(e.n) THEN e.r.k = "ok" /\ e.r.v = OrderOf(e.n) ELSE e.r.k = "err"
    ELSE IF IsOrder(e.n) THEN e.r.k = "ok" /\ e.r.v = Points(e.n) ELSE e.r.k = "err"
GoodGrid(e) ==
    LET m == Points(e.order)
        P == Rng(e.r.p)
    IN  /\ e.r.k = "ok"
        /\ e.r.qs = <<m, 3>> /\ e.r.qt = <<3, 1>> /\ e.r.ws = <<m>>
        /\ Len(e.r.p) = m /\ Cardinality({<<p[1], p[2], p[3]>> : p \in P}) = m
        /\ InvariantW(P)
        /\ \A i \in DOMAIN e.r.nn : Near(e.r.nn[i], One, Tol)
BadMom(e) == {i \in DOMAIN e.x : LET q == e.x[i][1] IN q[1] + q[2] + q[3] <= e.order /\ ~Near(e.x[i][2], Mean(q[1], q[2], q[3]), Tol)}
BadZonal(e) == {i \in DOMAIN e.x : ~Near(e.x[i], IF i = 1 THEN One ELSE Zero, Tol)}
Good(e) == CASE e.e = "map" -> GoodMap(e)
             [] e.e = "none" -> e.r.k = (IF e.how \in {0, 2, 4} THEN "panic" ELSE "err")
                                \/ (e.how \in {2, 3} /\ IsSize(e.order) /\ e.r.k = "ok")
             [] e.e = "grid" -> GoodGrid(e)
             [] e.e = "mom" -> BadMom(e) = {}
             [] e.e = "zonal" -> Len(e.x) = e.order + 1 /\ BadZonal(e) = {}
Want(e) == CASE e.e = "mom" -> LET i == CHOOSE j \in BadMom(e) : TRUE IN ToString(<<e.x[i], Mean(e.x[i][1][1], e.x[i][1][2], e.x[i][1][3])>>)
             [] e.e = "zonal" -> LET i == CHOOSE j \in BadZonal(e) : TRUE IN "degree " \o ToString(i - 1) \o " " \o ToString(e.x[i])
             [] OTHER -> "see TraceSph"
Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o Want(e))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
