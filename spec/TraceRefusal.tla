----------------------------- MODULE TraceRefusal -----------------------------
(***************************************************************************)
(* Validation of recorded requests.  Each was made twice: through the      *)
(* fallible form (rf) and through the infallible form (ki).                *)
(***************************************************************************)
EXTENDS Refusal, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)

\* the order an indexed or plain iteration over axes takes when none is asked for is the device's
OutGood(w, got) == got.sh = w.sh /\ (got.nov \/ got.v = w.v)
IdxAxes(e) == e.e = "axes_iter" /\ (e.how % 3) = 2
\* in column-major order of the named axes
FOrder(t, ax, parts) ==
    LET nx == NormAxes(ax, Len(t.sh))
        os == [i \in DOMAIN nx |-> t.sh[nx[i] + 1]]
    IN  [r \in DOMAIN parts |-> parts[PosAtRank(r - 1, os, "F") + 1]]
OutsGood(e, w) ==
    /\ Len(w) = Len(e.rf.outs)
    /\ IF e.e = "iterord" /\ Unordered(e.e, e.how)
       THEN e.rf.outs[1].sh = w[1].sh /\ SameBag(e.rf.outs[1].v, w[1].v)
       ELSE IF Unordered(e.e, e.how)
       THEN SameBag([i \in DOMAIN w |-> <<e.rf.outs[i].sh, e.rf.outs[i].v>>], [i \in DOMAIN w |-> <<w[i].sh, w[i].v>>])
       ELSE \A i \in DOMAIN w : OutGood(w[i], e.rf.outs[i])
Expect(e) == IF e.mixed THEN No ELSE Verdict(e.e, e.a, e.ins, e.o, e.how)
Wanted(e, x) == IF IdxAxes(e) /\ e.o = "F" /\ x.w = "yes" THEN FOrder(e.ins[1], e.a.ax, x.outs) ELSE x.outs

Good(e) ==
    LET x == Expect(e) IN
    /\ e.rf.k \in {"ok", "huge", "err"}                  \* the fallible form never panics
    /\ e.ki = (IF e.rf.k = "err" THEN "panic" ELSE "ok") \* the infallible form is the same function
    /\ e.same                                            \* with the same answer
    /\ e.unch                                            \* and nothing they read has changed
    /\ CASE x.w = "yes" -> e.rf.k = "ok" /\ OutsGood(e, Wanted(e, x))
         [] x.w = "no" -> e.rf.k = "err"
         [] OTHER -> TRUE

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o Expect(e).w)
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
