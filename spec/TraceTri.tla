------------------------------- MODULE TraceTri -------------------------------
(***************************************************************************)
(* Validation of recorded triangular masks, packings and unpackings.       *)
(***************************************************************************)
EXTENDS Tri, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Cx(v, im) == [p \in DOMAIN v |-> <<v[p], IF Len(im) = 0 THEN 0 ELSE im[p]>>]

PackGood(e) ==
    LET x == Pack(e.a.sh, Cx(e.a.v, e.a.im), e.uplo, e.order) IN
    IF ~x.ok THEN Refused(e)
    ELSE e.r.k = "ok" /\ e.r.sh = x.sh /\ Cx(e.r.v, e.r.im) = x.v
UnpackGood(e) ==
    LET x == Unpack(e.a.sh, Cx(e.a.v, e.a.im), e.uplo, e.symm, e.order) IN
    IF ~x.ok THEN Refused(e)
    ELSE /\ e.r.k = "ok" /\ e.r.sh = x.sh
         /\ LET got == Cx(e.r.v, e.r.im) IN Len(got) = Len(x.v) /\ \A p \in DOMAIN got : got[p] \in x.v[p]
TriGood(e) ==
    IF Len(e.a.sh) < 2 THEN Refused(e)
    ELSE LET kp == Keeps(e.a.sh, e.uplo, e.diag)
             was == Cx(e.a.v, e.a.im)
         IN  /\ e.r.k = "ok" /\ e.r.sh = e.a.sh
             /\ Cx(e.r.v, e.r.im) = [p \in DOMAIN was |-> IF kp[p] THEN was[p] ELSE Zero]
\* in place: the other cells of the buffer keep their values
TriMutGood(e) ==
    IF Len(e.c.sh) < 2 THEN Refused(e)
    ELSE LET kp == Keeps(e.c.sh, e.uplo, e.diag)
             ad == AddrSeq(e.c.sh, e.c.st, e.c.of)
             out == {ad[p] + 1 : p \in {q \in DOMAIN ad : ~kp[q]}}
             was == Cx(e.c.buf, e.c.bim)
             got == Cx(e.r.buf, e.r.bim)
         IN  /\ e.r.k = "ok" /\ Len(got) = Len(was)
             /\ \A i \in DOMAIN was : got[i] = IF i \in out THEN Zero ELSE was[i]

Good(e) ==
    /\ e.same
    /\ CASE e.e = "pack" -> PackGood(e)
         [] e.e = "unpack" -> UnpackGood(e)
         [] e.e = "tri" -> TriGood(e)
         [] e.e = "trimut" -> TriMutGood(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " judge")
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
