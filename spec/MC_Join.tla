-------------------------------- MODULE MC_Join -------------------------------
(***************************************************************************)
(* Joining, splitting and gathering over a small universe: every request   *)
(* about parts of small shapes is a transition from the empty situation.   *)
(* What must hold is stated independently of the definitions in Join:      *)
(* slices of a concatenation are its parts, unstacking undoes stacking,    *)
(* joins are associative and use every element exactly once, gathers       *)
(* compose, a mask is the list of its true places, the diagonal of a       *)
(* diagonal matrix is the vector, and requests are refused exactly when    *)
(* no array of the documented shape exists.  Requests are emitted.         *)
(***************************************************************************)
EXTENDS Join
CONSTANTS MaxRank, MaxDim, Triples, Emit, What
VARIABLES req, parts, res

Shapes(r, d) == UNION {[1 .. n -> 0 .. d] : n \in 0 .. r}
\* parts are numbered through, so that every element is distinct
Number(shs) == [i \in DOMAIN shs |-> [sh |-> shs[i], v |-> [p \in 1 .. Prod(shs[i]) |-> 100 * i + p]]]
Ax(n) == (-n - 1) .. n
Near(a) == {b \in Shapes(MaxRank, MaxDim) : Len(b) = Len(a) /\ Cardinality({k \in DOMAIN a : a[k] # b[k]}) <= 1}
Reqs ==
    IF What = "join" THEN
      UNION {{[op |-> op, shs |-> <<a, b>>, axis |-> <<x>>] : op \in {"concat", "stack"}, b \in Near(a) \cup {a \o <<1>>}, x \in Ax(Len(a) + 1)} : a \in Shapes(MaxRank, MaxDim)}
      \cup {[op |-> op, shs |-> <<a>>, axis |-> <<x>>] : op \in {"concat", "stack"}, a \in Shapes(MaxRank, MaxDim), x \in Ax(MaxRank + 1)}
      \cup UNION {{[op |-> op, shs |-> <<a, b>>, axis |-> <<>>] : op \in {"concat", "stack", "hstack", "vstack"}, b \in Near(a)} : a \in Shapes(MaxRank, MaxDim)}
      \cup (IF ~Triples THEN {} ELSE
            UNION {{[op |-> op, shs |-> <<a, b, c>>, axis |-> <<x>>] : op \in {"concat", "stack"}, b \in Near(a), c \in Near(a), x \in Ax(Len(a))} : a \in Shapes(2, MaxDim)})
      \cup {[op |-> op, shs |-> <<>>, axis |-> <<0>>] : op \in {"concat", "stack", "hstack", "vstack"}}
      \cup UNION {{[op |-> "unstack", shs |-> <<a>>, axis |-> <<x>>] : x \in Ax(Len(a))} : a \in Shapes(MaxRank, MaxDim)}
      \cup {[op |-> "diag", shs |-> <<a>>, off |-> k] : a \in Shapes(2, MaxDim + 1), k \in -4 .. 4}
      \cup {[op |-> "grid", shs |-> s, xy |-> xy] : s \in UNION {[1 .. n -> {<<k>> : k \in 0 .. MaxDim}] : n \in 0 .. 3}, xy \in BOOLEAN}
      \cup {[op |-> "atleast", shs |-> <<a>>, n |-> n] : a \in Shapes(MaxRank, MaxDim), n \in 1 .. 3}
    ELSE
      UNION {{[op |-> "sel", shs |-> <<a>>, ax |-> x, idx |-> i] : x \in Ax(Len(a)), i \in UNION {[1 .. n -> -(MaxDim + 1) .. MaxDim] : n \in 0 .. 2}} : a \in Shapes(MaxRank, MaxDim)}
      \cup {[op |-> "sel", shs |-> <<a>>, ax |-> 0, idx |-> i] : a \in {<<2>>, <<2, 2>>, <<1, 2>>}, i \in [1 .. 3 -> -2 .. 1]}
      \cup UNION {{[op |-> "mask", shs |-> <<a>>, ax |-> x, mask |-> i] : x \in Ax(Len(a)), i \in UNION {[1 .. n -> 0 .. 1] : n \in 0 .. MaxDim + 1}} : a \in Shapes(MaxRank, MaxDim)}
Shs == [i \in DOMAIN parts |-> parts[i].sh]
Meaning(q) ==
    CASE q.op \in {"concat", "stack", "hstack", "vstack"} -> Joined(q.op, q.shs, q.axis)
      [] q.op = "unstack" -> IF ~UnstackOk(q.shs[1], q.axis[1]) THEN Refuse
                             ELSE [ok |-> TRUE, outs |-> [j \in 1 .. q.shs[1][NormAx(q.axis[1], Len(q.shs[1])) + 1] |-> UnstackPart(q.shs[1], q.axis[1], j - 1)]]
      [] q.op = "diag" -> Diag(q.shs[1], q.off)
      [] q.op = "grid" -> LET ns == [i \in DOMAIN q.shs |-> q.shs[i][1]] IN [ok |-> TRUE, outs |-> [j \in DOMAIN ns |-> Grid(ns, q.xy, j)]]
      [] q.op = "atleast" -> Gives(AtLeast(q.shs[1], q.n), LAMBDA p : <<1, p>>)
      [] q.op = "sel" -> Select(q.shs[1], q.ax, q.idx)
      [] q.op = "mask" -> Select(q.shs[1], q.ax, MaskIdx(q.mask))
None == [op |-> "none"]
Init == req = None /\ parts = <<>> /\ res = Refuse
Next == /\ req = None
        /\ req' \in Reqs
        /\ parts' = Number(req'.shs)
        /\ res' = Meaning(req')
Spec == Init /\ [][Next]_<<req, parts, res>>

\* ------------------------------------------------------------ what is checked
Arr(x) == [sh |-> x.sh, v |-> Fetch(parts, x)]
Val(t, m) == [sh |-> m.sh, v |-> [i \in 1 .. Prod(m.sh) |-> t.v[m.src[i - 1] + 1]]]
Sl(k, n, a, o) == [j \in 1 .. n |-> IF j = k THEN [k |-> "s", a |-> <<a>>, o |-> <<o>>, p |-> <<>>] ELSE FullSlice]
Cut(t, k, a, o) == Val(t, SliceOp(t.sh, Sl(k, Len(t.sh), a, o)))
At(t, k, j) == Val(t, SliceOp(t.sh, [i \in 1 .. Len(t.sh) |-> IF i = k THEN [k |-> "i", v |-> j] ELSE FullSlice]))
\* the elements of all parts, each once
Uses == req.op \in {"concat", "stack", "hstack", "vstack"} /\ res.ok =>
    /\ NoDup(res.src)
    /\ Rng(res.src) = {<<i, p>> : i \in DOMAIN parts, p \in 0 .. 200} \cap UNION {{i} \X (0 .. (Prod(Shs[i]) - 1)) : i \in DOMAIN parts}
ConcatSlices == req.op = "concat" /\ res.ok =>
    LET k == NormAx(Opt(req.axis, 0), Len(res.sh)) + 1
        ends == [i \in 0 .. Len(parts) |-> SumSeq([j \in 1 .. i |-> Shs[j][k]])]
    IN  \A i \in DOMAIN parts : Cut(Arr(res), k, ends[i - 1], ends[i]) = parts[i]
StackParts == req.op = "stack" /\ res.ok =>
    LET k == NormAx(Opt(req.axis, 0), Len(res.sh)) + 1
    IN  res.sh[k] = Len(parts) /\ \A i \in DOMAIN parts : At(Arr(res), k, i - 1) = parts[i]
UnstackBack == req.op = "unstack" /\ res.ok =>
    LET k == NormAx(req.axis[1], Len(Shs[1]))
        outs == [j \in DOMAIN res.outs |-> Arr(res.outs[j])]
        st == Joined("stack", [j \in DOMAIN outs |-> outs[j].sh], <<k>>)
    IN  /\ \A j \in DOMAIN outs : outs[j] = At(parts[1], k + 1, j - 1)
        /\ Len(outs) > 0 => st.ok /\ st.sh = Shs[1] /\ Fetch(outs, st) = parts[1].v
Associative == req.op = "concat" /\ res.ok /\ Len(parts) = 3 =>
    LET ab == Joined("concat", <<Shs[1], Shs[2]>>, req.axis)
        bc == Joined("concat", <<Shs[2], Shs[3]>>, req.axis)
        l == <<[sh |-> ab.sh, v |-> Fetch(parts, ab)], parts[3]>>
        r == <<parts[1], [sh |-> bc.sh, v |-> Fetch(<<parts[2], parts[3]>>, bc)]>>
        x == Joined("concat", <<ab.sh, Shs[3]>>, req.axis)
        y == Joined("concat", <<Shs[1], bc.sh>>, req.axis)
    IN  x.ok /\ y.ok /\ x.sh = res.sh /\ y.sh = res.sh /\ Fetch(l, x) = Fetch(parts, res) /\ Fetch(r, y) = Fetch(parts, res)
Numpy == req.op \in {"hstack", "vstack"} /\ res.ok =>
    \A i \in DOMAIN parts :
        LET n == Len(res.sh)
            k == IF req.op = "vstack" THEN 1 ELSE IF n = 1 THEN 1 ELSE 2
            w(j) == LET s == AtLeast(Shs[j], IF req.op = "vstack" THEN 2 ELSE 1) IN s[k]
            e(j) == SumSeq([q \in 1 .. j |-> w(q)])
        IN  Cut(Arr(res), k, e(i - 1), e(i)).v = parts[i].v
\* refused exactly when the shapes do not fit (stated with an existential over result shapes)
Fits == req.op = "concat" /\ Len(parts) > 0 =>
    (res.ok <=> \E k \in DOMAIN Shs[1] : Opt(req.axis, 0) \in {k - 1, k - 1 - Len(Shs[1])} /\ \A i \in DOMAIN Shs : Len(Shs[i]) = Len(Shs[1]) /\ Cut(parts[i], k, 0, 0).sh = Cut(parts[1], k, 0, 0).sh)
FitsStack == req.op = "stack" /\ Len(parts) > 0 =>
    (res.ok <=> (\A i \in DOMAIN Shs : Shs[i] = Shs[1]) /\ Opt(req.axis, 0) >= -Len(Shs[1]) - 1 /\ Opt(req.axis, 0) <= Len(Shs[1]))
DiagBack == req.op = "diag" /\ res.ok =>
    IF Len(Shs[1]) = 1
    THEN LET d == Diag(res.sh, req.off)
             t == [sh |-> res.sh, v |-> Fetch(parts, res)]
         IN  d.ok /\ Fetch(<<t>>, d) = parts[1].v /\ SumSeq(t.v) = SumSeq(parts[1].v)
    ELSE LET m == DiagonalOp(Shs[1], req.off, 0, 1) IN m.ok /\ Arr(res) = Val(parts[1], m)
GridRight == req.op = "grid" =>
    \A j \in DOMAIN res.outs :
        LET g == res.outs[j]
            t == Arr(g)
            k == IF req.xy /\ Len(parts) >= 2 /\ j <= 2 THEN 3 - j ELSE j
        IN  /\ Len(g.sh) = Len(parts) /\ g.sh[k] = Shs[j][1]
            /\ \A p \in 0 .. (Prod(g.sh) - 1) : t.v[p + 1] = parts[j].v[Unravel(p, g.sh)[k] + 1]
SelRight == req.op \in {"sel", "mask"} =>
    LET n == Len(Shs[1])
        idx == IF req.op = "sel" THEN req.idx ELSE MaskIdx(req.mask)
    IN  /\ res.ok <=> (AxisOk(req.ax, n) /\ \A i \in DOMAIN idx : AxisOk(idx[i], Shs[1][NormAx(req.ax, n) + 1]))
        /\ res.ok =>
             LET k == NormAx(req.ax, n) + 1 IN
             /\ res.sh = [Shs[1] EXCEPT ![k] = Len(idx)]
             /\ \A i \in DOMAIN idx : At(Arr(res), k, i - 1) = At(parts[1], k, idx[i])
             \* gathering from a gather is gathering the composed list
             /\ \A j \in UNION {[1 .. q -> 0 .. (Len(idx) - 1)] : q \in 0 .. 2} :
                  LET x == Select(res.sh, req.ax, j)
                      y == Select(Shs[1], req.ax, [q \in DOMAIN j |-> idx[j[q] + 1]])
                  IN  x.ok /\ y.ok /\ Fetch(<<Arr(res)>>, x) = Fetch(parts, y)
\* a mask and its complement split the array
MaskSplits == req.op = "mask" /\ res.ok /\ Len(req.mask) = Shs[1][NormAx(req.ax, Len(Shs[1])) + 1] =>
    LET y == Select(Shs[1], req.ax, MaskIdx([i \in DOMAIN req.mask |-> 1 - req.mask[i]]))
    IN  Rng(Fetch(parts, res)) \cup Rng(Fetch(parts, y)) = Rng(parts[1].v) /\ Len(res.src) + Len(y.src) = Len(parts[1].v)

Txt(q) == IF q = <<>> THEN "_" ELSE FoldLeft(LAMBDA a, y : IF a = "" THEN ToString(y) ELSE a \o "," \o ToString(y), "", q)
Parts(q) == FoldLeft(LAMBDA a, y : a \o " " \o Txt(y), "", q)
EmitReq == Emit /\ req # None => PrintT("REQ " \o req.op \o " " \o
    (CASE req.op \in {"concat", "stack", "hstack", "vstack", "unstack"} -> Txt(req.axis)
       [] req.op = "diag" -> ToString(req.off)
       [] req.op = "grid" -> (IF req.xy THEN "xy" ELSE "ij")
       [] req.op = "atleast" -> ToString(req.n)
       [] req.op = "sel" -> ToString(req.ax) \o " " \o Txt(req.idx)
       [] req.op = "mask" -> ToString(req.ax) \o " " \o Txt(req.mask)) \o Parts(req.shs))
===============================================================================
