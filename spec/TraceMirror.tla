------------------------------ MODULE TraceMirror ------------------------------
(***************************************************************************)
(* Validation of recorded twin programs: every request was made to a       *)
(* row-major device and, mirrored, to a column-major device.               *)
(***************************************************************************)
EXTENDS Mirror, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)

\* the shapes of the operands handed to the column-major device
Flip2(x) == LET r == [i \in DOMAIN x |-> RevSeq(x[i])] IN r
Shapes(op, ins) ==
    LET r == Flip2(ins) IN
    CASE op \in {"matmul", "meshgrid"} -> RevSeq(r)
      [] op = "mm_from" -> <<r[2], r[1], r[3]>>
      [] OTHER -> r
AsArr(x) == [sh |-> x.sh, v |-> x.v]
\* a list of indices is reversed, index by index; arrays are mirrored
MirOut(x) == IF x.ix THEN [sh |-> x.sh, v |-> RevSeq(x.v)] ELSE RevArr(AsArr(x))
Side(x, o) == x.o \in {o, ""}
\* the request was mirrored as the specification mirrors it
Posed(e) == MirArgs(e.e, e.a) = e.f /\ Shapes(e.e, e.ins) = e.insf

\* the iterations over axes that are not asked for an order
Greedy(e) == e.e = "axes_iter" /\ e.how % 4 \in {0, 3}
TwinGood(e) ==
    /\ e.rc.k # "oob" /\ e.rf.k # "oob"
    /\ (e.rc.k = "ok") = (e.rf.k = "ok")
    /\ Len(e.rc.outs) = Len(e.rf.outs)
    /\ LET m == MirOuts(e.e, e.rc.outs)
           want == [i \in DOMAIN m |-> MirOut(m[i])]
           got == [i \in DOMAIN m |-> AsArr(e.rf.outs[i])]
       IN  /\ IF Greedy(e) THEN SameBag(got, want) ELSE got = want
           /\ \A i \in DOMAIN m : Side(m[i], "C") /\ Side(e.rf.outs[i], "F")
\* operands of different conventions never meet silently
MixedGood(e) == e.rc.k \in {"err", "panic"} /\ e.rf.k \in {"err", "panic"}

Good(e) ==
    /\ e.unch
    /\ IF e.mixed THEN MixedGood(e) ELSE TwinGood(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF ~Posed(e) THEN PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " posed")
           ELSE IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " judge")
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
