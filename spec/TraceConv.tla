------------------------------ MODULE TraceConv -------------------------------
(***************************************************************************)
(* Validation of recorded conversions: devices, element types, promotion,  *)
(* vectors and scalars, arrays, faer matrices.                             *)
(***************************************************************************)
EXTENDS Conv, Json, IOUtils
VARIABLES s, l

Sess == ndJsonDeserialize(IOEnv.TRACE)
Refused(e, r) == r.k = (IF e.inf THEN "panic" ELSE "err")

\* encoded numbers: seven fields per part
RECURSIVE BitsOf(_, _)
BitsOf(x, n) == IF n = 0 THEN <<>> ELSE <<x % 2>> \o BitsOf(x \div 2, n - 1)
Part(v) == IF v[1] = 0 THEN Fin(v[2], FoldLeft(LAMBDA a, i : a \o BitsOf(v[i], 16), <<>>, <<3, 4, 5, 6, 7>>))
           ELSE [k |-> v[1], s |-> v[2], m |-> <<>>]
Dec(v) == IF Len(v) = 7 THEN <<Part(v)>> ELSE <<Part(SubSeq(v, 1, 7)), Part(SubSeq(v, 8, 14))>>

CastGood(e) == /\ e.k = "ok" /\ e.gap = 0 /\ e.keep
               /\ Len(e.x) = Len(e.y)
               /\ \A i \in DOMAIN e.x : Dec(e.y[i]) = Cast(Dec(e.x[i]), e.s, e.t)
PromoteGood(e) ==
    LET r == Promote(e.s, e.t)
        x == Cast(Dec(e.x), e.s, r)
        y == Cast(Dec(e.y), e.t, r)
    IN  /\ e.res = r
        /\ Dec(e.p) = x /\ Dec(e.p1) = x /\ Dec(e.q) = y /\ Dec(e.q1) = y
        /\ e.flags[1] = (e.s = e.t)
MixGood(e) == /\ e.c.k = "ok" /\ e.c.sh = e.sh /\ e.c.ty = MixedType(e.op, e.s, e.t)
              /\ Len(e.c.y) = Len(e.x)
              /\ \A i \in DOMAIN e.x : Dec(e.c.y[i]) = Mixed(e.op, Dec(e.x[i]), Dec(e.y[i]), e.s, e.t)

(*********************************** devices ***********************************)
ValsIn(buf, sh, st, of) == LET ad == AddrSeq(sh, st, of) IN [i \in 1 .. Prod(sh) |-> buf[ad[i] + 1]]
VA(e) == ValsIn(e.a.buf, e.a.sh, e.a.st, e.a.of)
\* the moved tensor is the same tensor, lives on the target and works with tensors there; the source of a
\* copy or view keeps its memory; a write to a moved tensor does not reach a source that still exists
MoveGood(e) ==
    LET v == VA(e) IN
    /\ e.c.k = "ok" /\ e.c.sh = e.a.sh /\ e.c.v = v
    /\ e.same
    /\ e.rd = e.to
    /\ e.u.k = "ok" /\ e.u.sh = e.a.sh /\ e.u.v = [i \in DOMAIN v |-> v[i] + e.other[i]]
    /\ e.after = e.a.buf
    /\ Len(e.w) = 1 => /\ e.w[1].sh = e.a.sh
                       /\ e.w[1].v = [i \in DOMAIN v |-> IF i = (e.wr % Len(v)) + 1 THEN 777 ELSE v[i]]
VecGood(e) ==
    LET ok == IF e.op = "to_scalar" THEN Prod(e.a.sh) = 1 ELSE Len(e.a.sh) = 1 IN
    /\ IF ok THEN e.c.k = "ok" /\ e.c.v = VA(e) ELSE Refused(e, e.c)
    /\ e.after = e.a.buf
PackGood(e) ==
    LET x == PackOp(e.a.sh, e.a.st, e.a.of, Len(e.a.buf), e.n, e.axis)
        v == VA(e)
    IN
    IF ~x.ok \/ (x.may /\ e.c.k # "ok") THEN Refused(e, e.c) /\ e.after = e.a.buf
    ELSE LET pv == [i \in DOMAIN v |-> v[x.src[i - 1] + 1]]
             y == UnpackOp(x.sh, e.n, e.ax2)
         IN  /\ e.c.k = "ok" /\ e.c.sh = x.sh /\ e.c.v = pv
             /\ IF ~y.ok THEN Refused(e, e.d)
                ELSE e.d.k = "ok" /\ e.d.sh = y.sh /\ e.d.v = [i \in DOMAIN v |-> pv[y.src[i - 1] + 1]]
             \* the arrays of a mutable view are the memory of the tensor
             /\ e.after = IF e.write /\ y.ok /\ e.d.k = "ok" /\ Prod(y.sh) > 0 /\ ~(\E k \in DOMAIN e.a.st : e.a.st[k] = 0)
                          THEN LET p == AddrSeq(e.a.sh, e.a.st, e.a.of)[x.src[y.src[0]] + 1] IN [e.a.buf EXCEPT ![p + 1] = 777]
                          ELSE e.a.buf

(*********************************** faer ***********************************)
\* a matrix made by a chain of views of the matrix with values 100 + i * m + j
RECURSIVE Chain(_, _, _)
Chain(sh, V, ops) ==      \* V(i, j) as a function on 0-based pairs
    IF Len(ops) = 0 THEN [sh |-> sh, v |-> V]
    ELSE LET o == Head(ops)
             n == CASE o.o = "sub" -> <<o.p[3], o.p[4]>> [] o.o = "t" -> <<sh[2], sh[1]>> [] OTHER -> sh
             M == [q \in (0 .. n[1] - 1) \X (0 .. n[2] - 1) |->
                     CASE o.o = "sub" -> V[<<q[1] + o.p[1], q[2] + o.p[2]>>] [] o.o = "t" -> V[<<q[2], q[1]>>]
                       [] o.o = "rr" -> V[<<sh[1] - 1 - q[1], q[2]>>] [] OTHER -> V[<<q[1], sh[2] - 1 - q[2]>>]]
         IN  Chain(n, M, Tail(ops))
Base(e) == [q \in (0 .. e.n - 1) \X (0 .. e.m - 1) |-> 100 + q[1] * e.m + q[2]]
Flat(c) == [i \in 1 .. Prod(c.sh) |-> c.v[<<(i - 1) \div c.sh[2], (i - 1) % c.sh[2]>>]]
FaerGood(e) ==
    IF e.op \in {"view", "mut"} THEN
        LET v == VA(e)
            p == IF Len(e.w) = 2 THEN e.w[1] * e.a.sh[2] + e.w[2] + 1 ELSE 0
        IN  /\ e.c.k = "ok" /\ e.c.sh = e.a.sh
            /\ e.c.v = [i \in DOMAIN v |-> IF i = p THEN 7 ELSE v[i]]
            /\ e.after = IF p = 0 THEN e.a.buf ELSE [e.a.buf EXCEPT ![AddrSeq(e.a.sh, e.a.st, e.a.of)[p] + 1] = 7]
    ELSE LET c == Chain(<<e.n, e.m>>, Base(e), e.ops)
             f == Flat(c)
         IN  CASE e.op \in {"mat", "ref"} ->
                    /\ e.c.k = "ok" /\ e.c.sh = c.sh /\ e.c.v = f
                    /\ e.u.k = "ok" /\ e.u.sh = c.sh /\ e.u.v = [i \in DOMAIN f |-> f[i] + 1]
               [] e.op = "col" -> e.c.k = "ok" /\ e.c.sh = <<c.sh[1]>> /\ e.c.v = [i \in 1 .. c.sh[1] |-> c.v[<<i - 1, e.col>>]]
               [] OTHER ->
                    LET p == IF Len(f) = 0 THEN 0 ELSE (e.wr % Len(f)) + 1 IN
                    /\ e.c.k = "ok" /\ e.c.sh = c.sh /\ e.c.v = [i \in DOMAIN f |-> IF i = p THEN 7 ELSE f[i]]
                    /\ e.after.sh = <<e.n, e.m>>
                    /\ e.after.v = [i \in 1 .. (e.n * e.m) |-> IF p > 0 /\ 99 + i = f[p] THEN 7 ELSE 99 + i]

Good(e) == CASE e.e = "cast" -> CastGood(e) [] e.e = "promote" -> PromoteGood(e) [] e.e = "mix" -> MixGood(e)
             [] e.e = "move" -> MoveGood(e) [] e.e = "vec" -> VecGood(e) [] e.e = "pack" -> PackGood(e) [] e.e = "faer" -> FaerGood(e)

Init == s \in 1 .. Len(Sess) /\ l = 1
Next == /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ LET e == Sess[s].ev[l] IN
           IF Good(e) THEN TRUE
           ELSE PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                (IF e.e = "promote" THEN Promote(e.s, e.t)
                 ELSE IF e.e = "cast" THEN ToString([i \in DOMAIN e.x |-> Cast(Dec(e.x[i]), e.s, e.t)]) ELSE "judge"))
Spec == Init /\ [][Next]_<<s, l>>
===============================================================================
