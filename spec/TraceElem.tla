------------------------------- MODULE TraceElem ------------------------------
(***************************************************************************)
(* Validation of recorded elementwise operations and broadcasts.  Events   *)
(* are independent of each other; session 1 carries the function tables.   *)
(***************************************************************************)
EXTENDS Elementwise, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
T1 == Sess[1].ev[1].t1
T2 == Sess[1].ev[1].t2

\* a refused request is an error in the fallible form and a panic in the other
Refused(e) == e.r.k = (IF e.inf THEN "panic" ELSE "err")
Same(r, x) == r.k = "ok" /\ r.sh = x.sh /\ r.v = x.v
Judge(e, x) == IF x.ok THEN Same(e.r, x) ELSE Refused(e)

Expect(e) ==
    CASE e.e = "bin" ->
           LET F(x, y) == Sc2(T2, e.op, x, y) IN
           (CASE e.kind = "ten_ten" -> Map2(e.a, e.b, e.order, F)
             [] e.kind = "ten_num" -> Map1(e.a, LAMBDA x : F(x, e.s))
             [] e.kind = "num_ten" -> Map1(e.b, LAMBDA y : F(e.s, y))
             [] e.kind = "out" -> Into(e.c.sh, e.a, e.b, e.order, F))
      [] e.e = "un" -> Map1(e.a, LAMBDA x : IF e.ty = "f64" THEN Sc1F(T1, e.op, x) ELSE Sc1I(T1, e.op, x))
      [] e.e = "map" -> Map1(e.a, LAMBDA x : Sc1I(T1, "f", x))
      [] e.e = "bcto" -> BroadcastVal(e.a, e.sh, e.order)
      [] e.e = "bcarr" -> BcAll([i \in 1 .. Len(e.ts) |-> e.ts[i].sh], e.order)
      [] e.e = "bcsh" -> BcAll(e.shs, e.order)
      [] e.e = "defs" -> [ok |-> TRUE]

Good(e) ==
    LET x == Expect(e) IN
    CASE e.e = "defs" -> TRUE
      [] e.e = "bin" ->
           /\ Judge(e, x) /\ e.keep
           /\ e.kind = "out" => e.c.after = IF x.ok THEN PutVals(e.c.before, e.c.sh, e.c.st, e.c.of, x.v) ELSE e.c.before
      [] e.e = "un" -> Judge(e, x) /\ e.keep
      [] e.e = "map" ->
           /\ Judge(e, x)
           /\ e.after = IF e.inplace THEN PutVals(e.before, e.a.sh, e.a.st, e.a.of, x.v) ELSE e.before
           \* a stateful function sees every element exactly once
           /\ Len(e.calls) = 0 \/ e.calls = <<Prod(e.a.sh)>>
      [] e.e = "bcto" -> Judge(e, x)
      [] e.e = "bcsh" -> IF x.ok THEN e.r.k = "ok" /\ e.r.sh = x.sh ELSE Refused(e)
      [] e.e = "bcarr" ->
           IF ~x.ok THEN Refused(e)
           ELSE /\ e.r.k = "ok" /\ Len(e.r.ts) = Len(e.ts)
                /\ \A i \in 1 .. Len(e.ts) : Same(e.r.ts[i], BroadcastVal(e.ts[i], x.sh, e.order))

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o ToString(Expect(e)))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
