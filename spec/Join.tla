-------------------------------- MODULE Join ----------------------------------
(***************************************************************************)
(* Joining, splitting and gathering.  An array is a record with its shape  *)
(* and its values in row-major order.  Every operation is given by the     *)
(* place each element of the result comes from: <<part, position>>, with   *)
(* part 0 standing for the constant zero.                                  *)
(***************************************************************************)
EXTENDS NdArray

Refuse == [ok |-> FALSE]
Gives(sh, Src(_)) == [ok |-> TRUE, sh |-> sh, src |-> [p \in 1 .. Prod(sh) |-> Src(p - 1)]]
Fetch(parts, x) == [p \in 1 .. Len(x.src) |-> IF x.src[p][1] = 0 THEN 0 ELSE parts[x.src[p][1]].v[x.src[p][2] + 1]]

\* ---- concatenation along an existing axis (1-based k)
SameOther(shs, k) == \A i \in DOMAIN shs : Len(shs[i]) = Len(shs[1]) /\ \A a \in DOMAIN shs[1] : a # k => shs[i][a] = shs[1][a]
ConcatK(shs, k) ==
    LET sh == [a \in DOMAIN shs[1] |-> IF a = k THEN SumSeq([i \in DOMAIN shs |-> shs[i][k]]) ELSE shs[1][a]]
        ends == [i \in DOMAIN shs |-> SumSeq([j \in 1 .. i |-> shs[j][k]])]
        cs == CStr(sh)
        pcs == [i \in DOMAIN shs |-> CStr(shs[i])]
        \* which part covers place j of the joined axis
        part == [j \in 1 .. sh[k] |-> CHOOSE i \in DOMAIN shs : j <= ends[i] /\ (IF i = 1 THEN 0 ELSE ends[i - 1]) < j]
        Src(p) == LET idx == UnravelW(p, sh, cs)
                      i == part[idx[k] + 1]
                      off == IF i = 1 THEN 0 ELSE ends[i - 1]
                  IN  <<i, Dot([idx EXCEPT ![k] = idx[k] - off], pcs[i])>>
    IN  Gives(sh, Src)
Concat(shs, axis) ==
    IF Len(shs) = 0 \/ Len(shs[1]) = 0 \/ ~AxisOk(axis, Len(shs[1])) THEN Refuse
    ELSE LET k == NormAx(axis, Len(shs[1])) + 1 IN
         IF \E i \in DOMAIN shs : Len(shs[i]) # Len(shs[1]) THEN Refuse
         ELSE IF ~SameOther(shs, k) THEN Refuse ELSE ConcatK(shs, k)
\* ---- joining along a new axis
Stack(shs, axis) ==
    IF Len(shs) = 0 \/ (\E i \in DOMAIN shs : shs[i] # shs[1]) \/ ~AxisOk(axis, Len(shs[1]) + 1) THEN Refuse
    ELSE LET k == NormAx(axis, Len(shs[1]) + 1) + 1
         IN  Concat([i \in DOMAIN shs |-> InsertOne(shs[i], k, 1)], k - 1)
AtLeast(sh, n) ==
    IF n = 1 THEN (IF Len(sh) = 0 THEN <<1>> ELSE sh)
    ELSE IF n = 2 THEN (CASE Len(sh) = 0 -> <<1, 1>> [] Len(sh) = 1 -> <<1, sh[1]>> [] OTHER -> sh)
    ELSE CASE Len(sh) = 0 -> <<1, 1, 1>> [] Len(sh) = 1 -> <<1, sh[1], 1>> [] Len(sh) = 2 -> <<sh[1], sh[2], 1>> [] OTHER -> sh
HStack(shs) ==
    IF Len(shs) = 0 THEN Refuse
    ELSE LET up == [i \in DOMAIN shs |-> AtLeast(shs[i], 1)] IN Concat(up, IF Len(up[1]) = 1 THEN 0 ELSE 1)
VStack(shs) == IF Len(shs) = 0 THEN Refuse ELSE Concat([i \in DOMAIN shs |-> AtLeast(shs[i], 2)], 0)
Joined(op, shs, axis) ==
    CASE op = "concat" -> Concat(shs, Opt(axis, 0))
      [] op = "stack" -> Stack(shs, Opt(axis, 0))
      [] op = "hstack" -> HStack(shs)
      [] op = "vstack" -> VStack(shs)

\* ---- selection along an axis by a list of positions
Select(sh, axis, idx) ==
    IF ~AxisOk(axis, Len(sh)) THEN Refuse
    ELSE LET k == NormAx(axis, Len(sh)) + 1 IN
         IF \E i \in DOMAIN idx : ~AxisOk(idx[i], sh[k]) THEN Refuse
         ELSE LET new == [sh EXCEPT ![k] = Len(idx)]
                  at == [i \in DOMAIN idx |-> NormAx(idx[i], sh[k])]
                  cs == CStr(new)
                  os == CStr(sh)
                  Src(p) == LET x == UnravelW(p, new, cs) IN <<1, Dot([x EXCEPT ![k] = at[x[k] + 1]], os)>>
              IN  Gives(new, Src)
MaskIdx(mask) == SelectSeq([i \in 1 .. Len(mask) |-> i - 1], LAMBDA i : mask[i + 1] = 1)
\* ---- splitting: part j of the result
UnstackOk(sh, axis) == AxisOk(axis, Len(sh))
UnstackPart(sh, axis, j) ==
    LET k == NormAx(axis, Len(sh)) + 1
        new == RemoveIdx(sh, {k})
        os == CStr(sh)
        cs == CStr(new)
        Src(p) == <<1, Dot(InsertOne(UnravelW(p, new, cs), k, j), os)>>
    IN  Gives(new, Src)
\* ---- coordinate grids: grid j of vectors with lengths ns
GridAxis(ns, xy, j) == IF xy /\ Len(ns) >= 2 /\ j <= 2 THEN 3 - j ELSE j
GridShape(ns, xy) == [k \in DOMAIN ns |-> ns[IF xy /\ Len(ns) >= 2 /\ k <= 2 THEN 3 - k ELSE k]]
Grid(ns, xy, j) ==
    LET sh == GridShape(ns, xy)
        cs == CStr(sh)
        k == GridAxis(ns, xy, j)
    IN  Gives(sh, LAMBDA p : <<j, (p \div cs[k]) % sh[k]>>)
\* ---- diagonals
Diag(sh, off) ==
    IF Len(sh) = 1
    THEN LET m == sh[1] + Abs(off)
             r0 == IF off < 0 THEN -off ELSE 0
         IN  Gives(<<m, m>>, LAMBDA p : LET i == p \div m  j == p % m IN
                                        IF j - i = off /\ i - r0 >= 0 /\ i - r0 < sh[1] THEN <<1, i - r0>> ELSE <<0, 0>>)
    ELSE IF Len(sh) = 2
    THEN LET r0 == IF off < 0 THEN -off ELSE 0
             c0 == IF off > 0 THEN off ELSE 0
             n == Max2(0, Min2(sh[1] - r0, sh[2] - c0))
         IN  Gives(<<n>>, LAMBDA p : <<1, (r0 + p) * sh[2] + c0 + p>>)
    ELSE Refuse
===============================================================================
