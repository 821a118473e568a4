------------------------------- MODULE TraceIter ------------------------------
(***************************************************************************)
(* Validation of recorded iterations over elements or over axes.  The      *)
(* first event of a session creates the iterator; an item is a sub-tensor  *)
(* (a single element when all axes are iterated) given by its addresses.   *)
(***************************************************************************)
EXTENDS IterMachine, Json, IOUtils
VARIABLES s, l, ok, done     \* done: items delivered so far (sequence of address lists)

Sess == ndJsonDeserialize(IOEnv.TRACE)
New(i) == Sess[i].ev[1]

\* effective order: "C", "F", or "U" (chosen by the layout)
Eff(e) == LET o == IF e.ord = "" THEN (IF e.plainaxes THEN "K" ELSE e.dev) ELSE e.ord
          IN  IF o \in {"C", "F"} THEN o ELSE "U"
OrderOk(e) == \/ e.ord = ""
              \/ e.ord \in {"C", "F"}
              \/ ~e.indexed /\ e.ord \in {"A", "K", "G"}
Accept(e) == OrderOk(e) /\ AxesOk(e.axes, Len(e.sh))
\* shapes and strides of the iterated and of the remaining axes
Ax(e) == [q \in 1 .. Len(e.axes) |-> NormAx(e.axes[q], Len(e.sh)) + 1]
Inner(e) == SelectSeq([q \in 1 .. Len(e.sh) |-> q], LAMBDA q : q \notin Rng(Ax(e)))
Pick(v, ax) == [q \in 1 .. Len(ax) |-> v[ax[q]]]
Item(e, r, o) ==
    LET idx == AtRank(r, Pick(e.sh, Ax(e)), o)
    IN  [ix |-> idx, sh |-> Pick(e.sh, Inner(e)),
         ad |-> AddrSeq(Pick(e.sh, Inner(e)), Pick(e.st, Inner(e)), e.of + Dot(idx, Pick(e.st, Ax(e))))]
Total(e) == Prod(Pick(e.sh, Ax(e)))
Mult(e, ad) == Cardinality({r \in 0 .. (Total(e) - 1) : Item(e, r, "C").ad = ad})
\* delivered items el for the ranks rs
RightItems(e, rs, el, before) ==
    /\ Len(el) = Len(rs)
    /\ \A q \in 1 .. Len(rs) :
         IF Eff(e) # "U"
         THEN LET it == Item(e, rs[q], Eff(e)) IN el[q].ad = it.ad /\ el[q].sh = it.sh /\ (e.indexed => el[q].ix = it.ix)
         ELSE /\ el[q].sh = Pick(e.sh, Inner(e))
              /\ Len(SelectSeq(before \o [z \in 1 .. q |-> el[z].ad], LAMBDA a : a = el[q].ad)) <= Mult(e, el[q].ad)
OpRight(e, v) ==
    LET p == pieces[v.i]
        m == StepOn(p, v.op, v.k)
    IN  /\ v.r.k = "ok"
        /\ CASE v.op = "len" -> v.r.n = Rem(p)
             [] v.op = "hint" -> v.r.lo <= Rem(p) /\ (Len(v.r.hi) = 0 \/ v.r.hi[1] >= Rem(p))
             [] v.op = "split" -> TRUE
             [] OTHER -> RightItems(e, m.out, v.r.el, done)
EndRight(e, v) ==
    /\ \A i \in DOMAIN pieces : Rem(pieces[i]) = 0
    /\ e.muts => LET hit == UNION {Rng(done[q]) : q \in DOMAIN done}
                IN  v.buf = [c \in 1 .. Len(e.buf) |-> IF (c - 1) \in hit THEN e.buf[c] + 1000 ELSE e.buf[c]]
Expect(v) == IF v.e = "op" /\ v.op # "split"
             THEN LET m == StepOn(pieces[v.i], v.op, v.k) IN
                  [piece |-> pieces[v.i], items |-> [q \in 1 .. Len(m.out) |-> Item(New(s), m.out[q], IF Eff(New(s)) = "F" THEN "F" ELSE "C")]]
             ELSE [pieces |-> pieces]
Fail(v) == /\ PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o ToString(Expect(v)))
           /\ ok' = FALSE
           /\ UNCHANGED <<pieces, done>>
Init == /\ s \in 1 .. Len(Sess)
        /\ l = 1 /\ ok = TRUE /\ done = <<>>
        /\ pieces = [i \in {} |-> <<>>]
Step(v) ==
    LET e == New(s) IN
    CASE v.e = "new" ->
           IF (IF Accept(v) THEN v.r.k = "ok" ELSE v.r.k = (IF v.inf THEN "panic" ELSE "err"))
           THEN /\ pieces' = (1 :> [lo |-> 0, hi |-> IF Accept(v) THEN Total(v) ELSE 0])
                /\ UNCHANGED <<ok, done>>
           ELSE Fail(v)
      [] v.e = "op" ->
           IF ~OpRight(e, v) THEN Fail(v)
           ELSE /\ ok' = TRUE
                /\ IF v.op = "split"
                   THEN LET m == SplitOn(pieces[v.i], v.k) IN
                        pieces' = (v.j :> m.right) @@ [pieces EXCEPT ![v.i] = m.left] /\ UNCHANGED done
                   ELSE LET m == StepOn(pieces[v.i], v.op, v.k) IN
                        /\ pieces' = [pieces EXCEPT ![v.i] = m.rest]
                        /\ done' = IF v.op \in {"len", "hint"} THEN done ELSE done \o [q \in 1 .. Len(v.r.el) |-> v.r.el[q].ad]
      [] v.e = "end" -> IF EndRight(e, v) THEN UNCHANGED <<pieces, ok, done>> ELSE Fail(v)
Next == /\ ok
        /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ Step(Sess[s].ev[l])
Spec == Init /\ [][Next]_<<pieces, s, l, ok, done>>
===============================================================================
