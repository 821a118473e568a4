------------------------------- MODULE TraceRed -------------------------------
(***************************************************************************)
(* Validation of recorded reductions.  "red" events are calls of the       *)
(* public functions.  "bag" events run the library's reduction kernels     *)
(* with the free monoid: every accumulator is the sequence of the cells    *)
(* that went into it, so that the record shows how the work was split and  *)
(* combined, whatever the values are.                                      *)
(***************************************************************************)
EXTENDS Reduce, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")

\* ---- every cell exactly as often as the layout reads it
BagGood(e) ==
    LET sp == SplitFor(e.sh, e.axes)
        \* cells of place p, and how often each of them is read
        n == Len(e.sh)
        ax == IF Len(e.axes) = 0 THEN [i \in 1 .. n |-> i - 1] ELSE NormAxes(e.axes[1], n)
        keep == SelectSeq([i \in 1 .. n |-> i - 1], LAMBDA i : i \notin Rng(ax))
        Sub(x, which) == [i \in 1 .. Len(which) |-> x[which[i] + 1]]
        base == Offsets(Sub(e.sh, keep), Sub(e.st, keep))
        step == Offsets(Sub(e.sh, ax), Sub(e.st, ax))
        once == {step[q] : q \in 1 .. Len(step)}
        m == IF Len(step) = 0 THEN 0 ELSE Len(step) \div Cardinality(once)
    IN
    /\ e.r.k = "ok" /\ e.r.sh = sp.sh /\ Len(e.r.v) = Len(base)
    /\ \A p \in 1 .. Len(base) :
          LET got == e.r.v[p]           \* pairs (cell, how often)
              want == {<<e.of + base[p] + o, m>> : o \in once}
          IN  {got[i] : i \in 1 .. Len(got)} = want /\ Len(got) = Cardinality(want)

PairGood(e) == \* two operands reduced together: the pairs that were combined
    LET cs == CStr(e.sh)
        want == {<<e.ofa + Dot(UnravelW(p, e.sh, cs), e.sta), e.ofb + Dot(UnravelW(p, e.sh, cs), e.stb)>> : p \in 0 .. Prod(e.sh) - 1}
    IN  /\ e.r.k = "ok"
        /\ Len(e.r.v) = Cardinality(want) /\ {<<e.r.v[i][1], e.r.v[i][2]>> : i \in 1 .. Len(e.r.v)} = want
        /\ \A i \in 1 .. Len(e.r.v) : e.r.v[i][3] = Prod(e.sh) \div Cardinality(want)

BroadcastV(a, big, o) == [p \in 1 .. Prod(big) |-> a.v[BcPos(p - 1, big, a.sh, o) + 1]]
\* |a - b| <= atol + rtol |b| with rtol a multiple of 1/2
CloseAll(e) ==
    LET bc == BcAll(<<e.a.sh, e.b.sh>>, e.order) IN
    [ok |-> bc.ok /\ Prod(bc.sh) > 0,
     v |-> bc.ok /\ LET x == BroadcastV(e.a, bc.sh, e.order)
                        y == BroadcastV(e.b, bc.sh, e.order)
                    IN  \A i \in 1 .. Len(x) : 2 * Abs(x[i] - y[i]) <= 2 * e.atol + e.rtol2 * Abs(y[i])]

Good(e) ==
    CASE e.e = "red" -> IF RedOk(e.a, e.op, e.axes) THEN e.r.k = "ok" /\ RedGood(e.a, e.op, e.axes, e.r) ELSE Refused(e)
      [] e.e = "bag" -> BagGood(e)
      [] e.e = "pair" -> PairGood(e)
      [] e.e = "close" -> LET x == CloseAll(e) IN
             IF x.ok THEN e.r.k = "ok" /\ e.r.v = <<Bit(x.v)>> ELSE Refused(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (IF e.e = "red" THEN (IF RedOk(e.a, e.op, e.axes) THEN ToString(RedExpected(e.a, e.op, e.axes)) ELSE "refused") ELSE "judge"))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
