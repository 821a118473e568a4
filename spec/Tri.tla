--------------------------------- MODULE Tri ----------------------------------
(***************************************************************************)
(* Triangles of matrices: masks, packed storage, and unpacking under a     *)
(* symmetry.  Numbers are pairs <<re, im>>.  In row-major mode the matrix  *)
(* axes of packing are the last two and the packed axis is the last one,   *)
(* in column-major mode they are the first ones; everything is mirrored.   *)
(***************************************************************************)
EXTENDS NdArray

Refuse == [ok |-> FALSE]
Flip(u) == IF u = "L" THEN "U" ELSE "L"
TriN(n) == (n * (n + 1)) \div 2
\* packed positions of a triangle, row by row; 0-based <<row, column>>
RowSeq(n, u) ==
    LET start(i) == IF u = "L" THEN TriN(i) ELSE TriN(n) - TriN(n - i)
        row(q) == CHOOSE i \in 0 .. n - 1 : start(i) <= q /\ q < start(i) + (IF u = "L" THEN i + 1 ELSE n - i)
    IN  [q \in 1 .. TriN(n) |-> LET i == row(q - 1) IN
            <<i, (q - 1) - start(i) + (IF u = "L" THEN 0 ELSE i)>>]
PackSeq(n, u, o) ==
    IF o = "C" THEN RowSeq(n, u) ELSE LET t == RowSeq(n, Flip(u)) IN [q \in DOMAIN t |-> <<t[q][2], t[q][1]>>]
\* place of <<i, j>> in the packed triangle (0-based), as an array over row-major matrix positions; -1 outside
PackInv(n, u, o) ==
    LET t == PackSeq(n, u, o)
        pos(i, j) == \* closed form, mirrored for column-major mode
            LET x == IF o = "C" THEN i ELSE j
                y == IF o = "C" THEN j ELSE i
                w == IF o = "C" THEN u ELSE Flip(u)
            IN  IF w = "L" THEN (IF y <= x THEN TriN(x) + y ELSE -1)
                ELSE (IF y >= x THEN TriN(n) - TriN(n - x) + (y - x) ELSE -1)
    IN  [p \in 1 .. n * n |-> pos((p - 1) \div n, (p - 1) % n)]

\* ---- shapes: matrix part and batch part
MatAxes(nd, o) == IF o = "C" THEN <<nd - 1, nd>> ELSE <<1, 2>>      \* 1-based
BatchSh(sh, o, k) == IF o = "C" THEN SubSeq(sh, 1, Len(sh) - k) ELSE SubSeq(sh, k + 1, Len(sh))
Compose(batch, mat, o) == IF o = "C" THEN batch \o mat ELSE mat \o batch

Conj(z) == <<z[1], -z[2]>>
Neg(z) == <<-z[1], -z[2]>>
Zero == <<0, 0>>

\* the packed matrix (batch); v: values in row-major order
Pack(sh, v, u, o) ==
    IF Len(sh) < 2 THEN Refuse
    ELSE LET ax == MatAxes(Len(sh), o)
             n == sh[ax[1]]
         IN IF sh[ax[2]] # n THEN Refuse
         ELSE LET b == BatchSh(sh, o, 2)
                  new == Compose(b, <<TriN(n)>>, o)
                  t == PackSeq(n, u, o)
                  cs == CStr(new)
                  os == CStr(sh)
                  k == IF o = "C" THEN Len(new) ELSE 1
                  src(p) == LET x == UnravelW(p, new, cs)
                                bx == IF o = "C" THEN SubSeq(x, 1, Len(x) - 1) ELSE SubSeq(x, 2, Len(x))
                            IN  v[Dot(Compose(bx, t[x[k] + 1], o), os) + 1]
              IN  [ok |-> TRUE, sh |-> new, v |-> [p \in 1 .. Prod(new) |-> src(p - 1)]]

\* admissible values at <<i, j>> given the packed triangle; q: place of <<i, j>>, r: of <<j, i>> (or -1)
Filled(at(_), q, r, diag, symm) ==
    IF diag
    THEN CASE symm \in {"Sy", "N"} -> {at(q)}
           [] symm = "He" -> {at(q), Conj(at(q))}               \* the diagonal of such a matrix is real
           [] symm = "Ay" -> {Zero}
           [] symm = "Ah" -> {<<0, at(q)[2]>>}                  \* ... and of such one imaginary
    ELSE IF q >= 0 THEN {at(q)}
    ELSE CASE symm = "Sy" -> {at(r)}
           [] symm = "He" -> {Conj(at(r))}
           [] symm = "Ay" -> {Neg(at(r))}
           [] symm = "Ah" -> {Neg(Conj(at(r)))}
           [] symm = "N" -> {Zero}
\* [ok, sh, v] with sets of admissible values
Unpack(sh, v, u, symm, o) ==
    IF Len(sh) < 1 THEN Refuse
    ELSE LET k == IF o = "C" THEN Len(sh) ELSE 1
             m == sh[k]
         IN IF ~(\E n \in 0 .. m : TriN(n) = m) THEN Refuse
         ELSE LET n == CHOOSE n \in 0 .. m : TriN(n) = m
                  b == BatchSh(sh, o, 1)
                  new == Compose(b, <<n, n>>, o)
                  inv == PackInv(n, u, o)
                  cs == CStr(new)
                  os == CStr(sh)
                  ax == MatAxes(Len(new), o)
                  set(p) == LET x == UnravelW(p, new, cs)
                                bx == BatchSh(x, o, 2)
                                i == x[ax[1]]
                                j == x[ax[2]]
                                at(q) == v[Dot(Compose(bx, <<q>>, o), os) + 1]
                            IN  Filled(at, inv[i * n + j + 1], inv[j * n + i + 1], i = j, symm)
              IN  [ok |-> TRUE, sh |-> new, v |-> [p \in 1 .. Prod(new) |-> set(p - 1)]]

\* which positions (row-major) a triangular mask keeps: the last two axes form the matrix
Keeps(sh, u, k) ==
    LET nd == Len(sh)
        nc == sh[nd]
        nr == sh[nd - 1]
    IN  [p \in 1 .. Prod(sh) |-> LET i == ((p - 1) \div nc) % nr  j == (p - 1) % nc
                                 IN  IF u = "L" THEN j - i <= k ELSE j - i >= k]
===============================================================================
