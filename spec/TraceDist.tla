------------------------------ MODULE TraceDist -------------------------------
(***************************************************************************)
(* Validation of recorded pairwise distance computations.  A recorded      *)
(* distance is round(e.S * transformed distance), see Dist.                *)
(***************************************************************************)
EXTENDS Dist, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
\* within two units of the recorded precision; an undefined distance is not judged
Near(q, x, S) == x.den = 0 \/ (Abs(q) < 200000000 /\ Abs(q) <= S * (Abs(x.num) \div x.den + 2)
                               /\ Abs(q * x.den - S * x.num) <= 2 * x.den)
\* the logarithms of the table are already scaled
NearLn(q, x) == x.den = 0 \/ (Abs(q) < 20000 /\ Abs(q * (x.den \div LnScale) - x.num) <= 6 * (x.den \div LnScale))
Good(e) ==
    IF e.foreign \/ ~CDistOk(e.a, e.b, e.w) THEN Refused(e)
    ELSE /\ e.r.k = "ok" /\ e.r.sh = <<e.a.sh[1], e.b.sh[1]>>
         /\ LET want == CDist(e.met, e.p, e.a, e.b, e.w)
            IN  /\ Len(e.r.q) = Len(want)
                /\ \A i \in DOMAIN want : IF e.met = "jensenshannon" THEN NearLn(e.r.q[i], want[i])
                                          ELSE Near(e.r.q[i], want[i], e.S)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (IF e.foreign \/ ~CDistOk(e.a, e.b, e.w) THEN "refused"
                 ELSE IF Len(e.a.v) > 60 THEN "large" ELSE ToString(CDist(e.met, e.p, e.a, e.b, e.w))))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
