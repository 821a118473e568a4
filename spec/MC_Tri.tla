-------------------------------- MODULE MC_Tri --------------------------------
(***************************************************************************)
(* The packed order enumerates every element of the triangle once, and     *)
(* unpacking a packed matrix restores every matrix of the right symmetry,  *)
(* for all matrices over a small set of numbers.                           *)
(***************************************************************************)
EXTENDS Tri
CONSTANTS NMax, Vals
VARIABLES n, u, o, m
V3 == {-1, 0, 1}
Num == Vals \X Vals
Init == /\ n \in 0 .. NMax /\ u \in {"L", "U"} /\ o \in {"C", "F"}
        /\ m \in [1 .. n * n -> Num]
Next == UNCHANGED <<n, u, o, m>>
Spec == Init /\ [][Next]_<<n, u, o, m>>
At(i, j) == m[i * n + j + 1]
All(P(_, _)) == \A i \in 0 .. n - 1 : \A j \in 0 .. n - 1 : P(i, j)
Is(symm) ==
    CASE symm = "Sy" -> All(LAMBDA i, j : At(i, j) = At(j, i))
      [] symm = "He" -> All(LAMBDA i, j : At(i, j) = Conj(At(j, i)))
      [] symm = "Ay" -> All(LAMBDA i, j : At(i, j) = Neg(At(j, i)))
      [] symm = "Ah" -> All(LAMBDA i, j : At(i, j) = Neg(Conj(At(j, i))))
      [] symm = "N" -> All(LAMBDA i, j : (IF u = "L" THEN j > i ELSE j < i) => At(i, j) = Zero)
Bijective ==
    LET t == PackSeq(n, u, o)
        inv == PackInv(n, u, o)
    IN  /\ {t[q] : q \in DOMAIN t} = {x \in (0 .. n - 1) \X (0 .. n - 1) : IF u = "L" THEN x[2] <= x[1] ELSE x[2] >= x[1]}
        /\ Len(t) = TriN(n)
        /\ \A q \in DOMAIN t : inv[t[q][1] * n + t[q][2] + 1] = q - 1
        /\ Cardinality({p \in DOMAIN inv : inv[p] >= 0}) = TriN(n)
RoundTrip ==
    \A symm \in {"Sy", "He", "Ay", "Ah", "N"} : Is(symm) =>
        LET x == Pack(<<n, n>>, m, u, o)
            y == Unpack(x.sh, x.v, u, symm, o)
        IN  y.ok /\ y.sh = <<n, n>> /\ \A p \in 1 .. n * n : m[p] \in y.v[p] /\ \A z \in y.v[p] : z = m[p]
\* masks: the two triangles that share no diagonal split the matrix
Masks == \A k \in -n - 1 .. n + 1 :
    LET a == Keeps(<<n, n>>, "L", k)
        b == Keeps(<<n, n>>, "U", k + 1)
    IN  \A p \in 1 .. n * n : a[p] # b[p]
===============================================================================
