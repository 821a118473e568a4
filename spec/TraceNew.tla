------------------------------- MODULE TraceNew -------------------------------
(***************************************************************************)
(* Validation of recorded calls of creation functions.                     *)
(***************************************************************************)
EXTENDS Create, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Is(e, sh, v) == e.r.k = "ok" /\ e.r.sh = sh /\ e.r.v = v

ArangeGood(e) ==
    IF e.step = 0 THEN Refused(e)
    ELSE LET v == Arange(e.start, e.stop, e.step) IN Is(e, <<Len(v)>>, v)
LinGood(e) == Is(e, <<e.n>>, Linspace(e.start, e.stop, e.n, e.endpoint))
EyeGood(e) ==
    /\ Is(e, <<e.n, e.m>>, Eye(e.n, e.m, e.k))
    /\ IsContig(e.r.sh, e.r.st, e.fo) /\ Fits(e.r.sh, e.r.st, e.r.of, e.r.len)
Content(e) == CASE e.what = "zeros" -> 0 [] e.what = "ones" -> 1 [] e.what = "full" -> e.x [] OTHER -> 0
Filled(e, sh) == e.r.k = "ok" /\ e.r.sh = sh /\ Fits(sh, e.r.st, e.r.of, e.r.len)
                 /\ (e.what # "empty" => e.r.v = Const(sh, Content(e)))
ConstGood(e) ==
    /\ Filled(e, e.sh)
    /\ IF e.form = 2 THEN SameStrides(e.sh, e.r.st, e.st) /\ (Prod(e.sh) > 0 => e.r.of = e.of)
       ELSE IsContig(e.sh, e.r.st, e.fo)
LikeGood(e) == Filled(e, e.a.sh) /\ LikeLayout(e.a.sh, e.a.st, e.ord, e.r.st)
\* the elements that memory data holds at strides st and offset of
At(data, sh, st, of) == LET ad == AddrSeq(sh, st, of) IN [p \in DOMAIN ad |-> data[ad[p] + 1]]
AsGood(e) ==
    LET sh == IF e.form = 0 THEN <<Len(e.data)>> ELSE e.sh
        st == IF e.form = 2 THEN e.st ELSE Contig(sh, e.fo)
        of == IF e.form = 2 THEN e.of ELSE 0
        wr == e.src \in {"mut", "mutvec"}
        ad == {x + 1 : x \in Rng(AddrSeq(sh, st, of))}
    IN  IF ~Fits(sh, st, of, Len(e.data)) THEN Refused(e) /\ e.after = e.data
        ELSE /\ e.r.k = "ok" /\ e.r.sh = sh /\ SameStrides(sh, e.r.st, st)
             /\ e.r.v = At(e.data, sh, st, of)
             /\ (e.src # "vec" => e.r.same)
             \* the driver fills what it was lent for writing with 55
             /\ e.after = [i \in DOMAIN e.data |-> IF wr /\ i \in ad THEN 55 ELSE e.data[i]]
TensorGood(e) ==
    /\ Is(e, e.a.sh, e.a.v)
    /\ LikeLayout(e.a.sh, e.a.st, e.ord, e.r.st)
    /\ Fits(e.r.sh, e.r.st, e.r.of, e.r.len)
    /\ (e.r.same => e.form \in {2, 3})

Good(e) ==
    CASE e.e = "arange" -> ArangeGood(e)
      [] e.e = "linspace" -> LinGood(e)
      [] e.e = "eye" -> EyeGood(e)
      [] e.e = "const" -> ConstGood(e)
      [] e.e = "like" -> LikeGood(e)
      [] e.e = "asarray" -> AsGood(e)
      [] e.e = "astensor" -> TensorGood(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (CASE e.e = "arange" /\ e.step # 0 -> ToString(Arange(e.start, e.stop, e.step))
                   [] e.e = "linspace" -> ToString(Linspace(e.start, e.stop, e.n, e.endpoint))
                   [] OTHER -> e.e))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
