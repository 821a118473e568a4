------------------------------- MODULE TraceLay -------------------------------
(***************************************************************************)
(* Validation of recorded layout computations against Layout.              *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
\* the recorded predicates of a layout
Props(r, sh, st, of) ==
    /\ r.size = Prod(sh)
    /\ r.cc = CContig(sh, st) /\ r.fc = FContig(sh, st)
    /\ r.nc = NContigC(sh, st) /\ r.nf = NContigF(sh, st)
    /\ r.cp = CPrefer(sh, st) /\ r.fp = FPrefer(sh, st)
    /\ r.bc = (0 \in Rng(st)) /\ r.nb = SizeNB(sh, st)
    /\ r.bk = "ok" /\ <<r.lo, r.hi>> = Bounds(sh, st, of)
Lay(y, sh, st, of) == y.sh = sh /\ y.st = st /\ y.of = of
GoodNew(e) ==
    IF ~Admit(e.x.sh, e.x.st, e.x.of) THEN e.r.k = "err"
    ELSE e.r.k = "ok" /\ Lay(e.r.lay, e.x.sh, e.x.st, e.x.of) /\ Props(e.r, e.x.sh, e.x.st, e.x.of)
GoodIndex(e) ==
    LET n == Len(e.x.sh)
        in == Len(e.ix) = n /\ \A k \in 1 .. n : AxisOk(e.ix[k], e.x.sh[k])
    IN  IF ~in THEN e.r.k = (IF e.inf THEN "panic" ELSE "err")
        ELSE e.r.k = "ok" /\ e.r.a = e.x.of + Dot([k \in 1 .. n |-> NormAx(e.ix[k], e.x.sh[k])], e.x.st)
GoodContig(e) ==
    LET y == e.r.lay IN
    /\ e.r.k = "ok" /\ y.sh = e.sh /\ y.of = e.of
    /\ Admit(y.sh, y.st, y.of) /\ Props(e.r, y.sh, y.st, y.of)
    /\ IF e.ord = "C" THEN CContig(y.sh, y.st) ELSE FContig(y.sh, y.st)
GoodTensor(e) ==
    IF ~Fits(e.x.sh, e.x.st, e.x.of, e.len) THEN e.r.k = "err"
    ELSE e.r.k = "ok" /\ e.r.sh = e.x.sh /\ e.r.v = AddrSeq(e.x.sh, e.x.st, e.x.of)
SameShape(ys) == \A i \in DOMAIN ys : ys[i].sh = ys[1].sh
RevLay(y) == [sh |-> RevSeq(y.sh), st |-> RevSeq(y.st), of |-> y.of]
Dense(y) == LET b == Bounds(y.sh, y.st, y.of) IN b[2] - b[1] = Prod(y.sh)
AllOf(xs, P(_, _)) == \A i \in DOMAIN xs : P(xs[i].sh, xs[i].st)
\* what the rearranged layouts visit
GoodVisit(e) ==
    LET x == e.x
        y == e.r.y
        one == Len(x) = 1
        contigs == AllOf(x, CContig) \/ AllOf(x, FContig)
        seqOk == Len(y) = Len(x) /\ SameShape(y) /\ (Empty(x[1].sh) => Empty(y[1].sh))
        bag == seqOk /\ (Empty(x[1].sh) \/ SameBag(Together(y), Together(x)))
    IN
    CASE e.ord = "C" -> e.r.k = "ok" /\ seqOk /\ Together(y) = Together([i \in DOMAIN x |-> RevLay(x[i])])
      [] e.ord = "F" -> e.r.k = "ok" /\ seqOk /\ Together(y) = Together(x)
      [] e.ord \in {"A", "K"} -> e.r.k = "ok" /\ bag
      [] e.ord = "G" /\ e.unary -> e.r.k = "ok" /\ SameBag(Walked(y[1]), AddrSeq(Unbroadcast(x[1].sh, x[1].st), x[1].st, x[1].of))
      [] e.ord = "G" -> e.r.k = "err"
      \* sequential memory: only of layouts that fill their bounds; a broadcast layout is not judged
      [] OTHER -> LET ok == \A i \in DOMAIN x : Dense(x[i]) IN
                  IF ~ok THEN e.r.k = "err"
                  ELSE IF \E i \in DOMAIN x : 0 \in Rng(x[i].st) THEN TRUE
                  ELSE /\ e.r.k = "ok" /\ seqOk
                       /\ \A i \in DOMAIN x : LET b == Bounds(x[i].sh, x[i].st, x[i].of)
                                              IN  Walked(y[i]) = [q \in 1 .. Prod(x[i].sh) |-> b[1] + q - 1]
GoodTrans(e) ==
    /\ GoodVisit(e)
    /\ (e.r.k = "ok" /\ e.r.n >= 0 /\ ~Empty(e.x[1].sh)) =>
          /\ Len(e.r.z) = Len(e.r.y) /\ SameShape(e.r.z)
          /\ TogetherN(e.r.z, e.r.n) = Together(e.r.y)
GoodBinop(e) ==
    IF e.a.sh # e.b.sh THEN e.r.k = "err"
    ELSE LET y == e.r.lay IN
         /\ e.r.k = "ok" /\ y.sh = e.a.sh /\ y.of = 0
         /\ \A k \in DOMAIN y.sh : (~Empty(y.sh) /\ y.sh[k] # 1) => ((y.st[k] = 0) = (e.a.st[k] = 0 /\ e.b.st[k] = 0))
         /\ Empty(y.sh) \/ (Admit(y.sh, y.st, 0) /\ Bounds(y.sh, y.st, 0)[2] = Prod(Unbroadcast(y.sh, y.st)))
         /\ Empty(y.sh) \/ Props(e.r, y.sh, y.st, 0)
         \* equal contiguous operands give a result stored like them
         /\ (e.a = e.b /\ ~Empty(y.sh) /\ (CContig(e.a.sh, e.a.st) \/ FContig(e.a.sh, e.a.st)))
              => AddrSeq(y.sh, y.st, 0) = AddrSeq(e.a.sh, e.a.st, 0)
GoodCopy(e) ==
    IF e.ord \in {"G", "B"} THEN e.r.k = "err"
    ELSE LET y == e.r.lay
             c == CContig(e.x.sh, e.x.st)
             f == FContig(e.x.sh, e.x.st)
         IN
         /\ e.r.k = "ok" /\ y.sh = e.x.sh /\ y.of = 0 /\ Admit(y.sh, y.st, 0) /\ Dense(y)
         /\ Empty(y.sh) \/ Distinct(y.sh, [k \in DOMAIN y.st |-> IF y.sh[k] = 1 THEN 1 ELSE y.st[k]], 0)
         /\ CASE e.ord = "C" -> CContig(y.sh, y.st)
              [] e.ord = "F" -> FContig(y.sh, y.st)
              [] e.ord = "A" -> IF ~c /\ f THEN FContig(y.sh, y.st) ELSE CContig(y.sh, y.st)
              [] OTHER -> \A i, j \in Moving(e.x.sh, e.x.st) :
                             (~Empty(y.sh) /\ Abs(e.x.st[i]) < Abs(e.x.st[j])) => (y.st[i] > 0 /\ y.st[i] < y.st[j])
\* a reshape without a copy: same elements in the same sequence; if one exists it is found
Viewable(x, to, o) ==
    LET a == IF o = "C" THEN AddrSeq(x.sh, x.st, x.of) ELSE Walked(x)
        t == IF o = "C" THEN to ELSE RevSeq(to)
        cs == CStr(t)
        st == [k \in DOMAIN t |-> IF t[k] = 1 THEN 0 ELSE a[cs[k] + 1] - a[1]]
    IN  AddrSeq(t, st, x.of) = a
GoodReshape(e) ==
    IF Prod(e.x.sh) # Prod(e.to) THEN e.r.k = "err"
    ELSE /\ e.r.k = "ok"
         /\ IF Len(e.r.y) = 1
            THEN LET y == e.r.y[1] IN
                 /\ y.sh = e.to
                 /\ IF Empty(y.sh) THEN y.of = e.x.of
                    ELSE IF e.ord = "C" THEN AddrSeq(y.sh, y.st, y.of) = AddrSeq(e.x.sh, e.x.st, e.x.of) ELSE Walked(y) = Walked(e.x)
            ELSE Empty(e.x.sh) \/ ~Viewable(e.x, e.to, e.ord)
GoodEq(e) == /\ e.r.k = "ok"
             /\ e.r.v = (/\ e.a.sh = e.b.sh /\ e.a.of = e.b.of
                         /\ \A k \in DOMAIN e.a.sh : e.a.sh[k] > 1 => e.a.st[k] = e.b.st[k])
Good(e) == CASE e.e = "new" -> GoodNew(e)
             [] e.e = "index" -> GoodIndex(e)
             [] e.e = "unravel" -> e.r.k = "ok" /\ e.r.ix = AtRank(e.p, e.sh, e.ord)
             [] e.e = "contig" -> GoodContig(e)
             [] e.e = "tensor" -> GoodTensor(e)
             [] e.e = "trans" -> GoodTrans(e)
             [] e.e = "binop" -> GoodBinop(e)
             [] e.e = "copy" -> GoodCopy(e)
             [] e.e = "reshape" -> GoodReshape(e)
             [] e.e = "eq" -> GoodEq(e)
Want(e) == CASE e.e \in {"new", "tensor"} ->
                   IF Len(e.x.sh) # Len(e.x.st) THEN "refused"
                   ELSE ToString([admit |-> Admit(e.x.sh, e.x.st, e.x.of), bounds |-> Bounds(e.x.sh, e.x.st, e.x.of),
                        c |-> CContig(e.x.sh, e.x.st), f |-> FContig(e.x.sh, e.x.st), cp |-> CPrefer(e.x.sh, e.x.st), fp |-> FPrefer(e.x.sh, e.x.st)])
             [] e.e = "trans" -> "tuples " \o ToString(IF Prod(e.x[1].sh) > 40 THEN <<>> ELSE Together(e.x))
             [] OTHER -> "see TraceLay"
Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o Want(e))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
