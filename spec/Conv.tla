--------------------------------- MODULE Conv ---------------------------------
(***************************************************************************)
(* Conversions of numbers between element types, promotion of two types,   *)
(* and the packing of an axis into arrays.                                 *)
(*                                                                         *)
(* A number is exact: [k, s, m] where k = 0 finite with sign s (1 when     *)
(* negative) and magnitude m given by the bits of four times the number,   *)
(* lowest first, without leading zeros; k = 1 infinite, 2 not a number,    *)
(* 3 and 4 finite but huge (about 1e38 and 1e300).  A type is a kind       *)
(* ("b", "u", "i", "f") with a width; for "f" the precision in bits.       *)
(***************************************************************************)
EXTENDS NdArray
Num0 == [k |-> 0, s |-> 0, m |-> <<>>]
Inf(s) == [k |-> 1, s |-> s, m |-> <<>>]
Nan == [k |-> 2, s |-> 0, m |-> <<>>]
\* a function over 1 .. n as an evaluated sequence
Tup(f) == f \o <<>>
Bit(m, i) == IF i \in 1 .. Len(m) THEN m[i] ELSE 0
RECURSIVE TrimB(_)
TrimB(m) == IF Len(m) = 0 \/ m[Len(m)] = 1 THEN m ELSE TrimB(SubSeq(m, 1, Len(m) - 1))
Fin(s, m) == LET t == TrimB(m) IN [k |-> 0, s |-> IF Len(t) = 0 THEN 0 ELSE s, m |-> t]
\* the bits m increased by the value of bit place i (1-based)
RECURSIVE AddBit(_, _)
AddBit(m, i) == IF i > Len(m) THEN Tup([j \in 1 .. i |-> IF j = i THEN 1 ELSE Bit(m, j)])
                ELSE IF m[i] = 0 THEN [m EXCEPT ![i] = 1] ELSE AddBit([m EXCEPT ![i] = 0], i + 1)
Low(m, n) == Tup([j \in 1 .. n |-> Bit(m, j)])
\* two's complement of n bits
Compl(m, n) == Low(AddBit(Tup([j \in 1 .. n |-> 1 - Bit(m, j)]), 1), n)
\* comparison of magnitudes without leading zeros
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE \E i \in 1 .. Len(a) : a[i] < b[i] /\ \A j \in (i + 1) .. Len(a) : a[j] = b[j]

(************************************ casts ************************************)
\* precision of the floating-point types, width of the widest and of half that width of integers
SP == 24
DP == 53
MaxW == 64
SmallW == 16
Types == [bool |-> <<"b", 1>>, u8 |-> <<"u", 8>>, u16 |-> <<"u", 16>>, u32 |-> <<"u", 32>>, u64 |-> <<"u", 64>>, usize |-> <<"u", 64>>,
          i8 |-> <<"i", 8>>, i16 |-> <<"i", 16>>, i32 |-> <<"i", 32>>, i64 |-> <<"i", 64>>, isize |-> <<"i", 64>>,
          f32 |-> <<"f", 24>>, f64 |-> <<"f", 53>>]
\* to a floating-point type of precision p: to nearest, ties to even; w: exponent range (the 128 of single precision)
Round(x, p) ==
    IF Len(x.m) <= p THEN x
    ELSE LET d == Len(x.m) - p
             up == x.m[d] = 1 /\ (x.m[d + 1] = 1 \/ \E j \in 1 .. d - 1 : x.m[j] = 1)
             cut == Tup([j \in 1 .. Len(x.m) |-> IF j <= d THEN 0 ELSE x.m[j]])
         IN  Fin(x.s, IF up THEN AddBit(cut, d + 1) ELSE cut)
ToFloat(x, p) == IF x.k = 0 THEN Round(x, p) ELSE IF x.k = 4 /\ p <= SP THEN Inf(x.s) ELSE x
\* from an integer: modulo 2^w
Wrap(x, kind, w) ==
    LET v == Low(SubSeq(x.m, 3, Len(x.m)), w)
        u == IF x.s = 1 THEN Compl(v, w) ELSE v
        q(b) == <<0, 0>> \o b
    IN  IF kind = "i" /\ u[w] = 1 THEN Fin(1, q(Compl(u, w))) ELSE Fin(0, q(u))
MaxOf(kind, w) == Fin(0, <<0, 0>> \o [j \in 1 .. (IF kind = "i" THEN w - 1 ELSE w) |-> 1])
MinOf(kind, w) == IF kind = "u" THEN Num0 ELSE Fin(1, <<0, 0>> \o [j \in 1 .. w |-> IF j = w THEN 1 ELSE 0])
\* from a floating-point number: towards zero, saturating; what is not a number becomes zero
Saturate(x, kind, w) ==
    IF x.k = 2 THEN Num0
    ELSE IF x.k # 0 THEN (IF x.s = 1 THEN MinOf(kind, w) ELSE MaxOf(kind, w))
    ELSE LET t == Fin(x.s, Tup([j \in 1 .. Len(x.m) |-> IF j <= 2 THEN 0 ELSE x.m[j]]))
             hi == MaxOf(kind, w)
             lo == MinOf(kind, w)
         IN  IF t.s = 0 THEN (IF Less(hi.m, t.m) THEN hi ELSE t)
             ELSE (IF Less(lo.m, t.m) THEN lo ELSE t)
One4 == [k |-> 0, s |-> 0, m |-> <<0, 0, 1>>]
CastT(x, from, to) ==
    CASE to = from -> x
      [] to[1] = "b" -> IF x = Num0 THEN Num0 ELSE One4
      [] from[1] = "b" -> x
      [] to[1] = "f" -> ToFloat(x, to[2])
      [] from[1] = "f" -> Saturate(x, to[1], to[2])
      [] OTHER -> Wrap(x, to[1], to[2])
IsC(t) == t \in {"c32", "c64"}
PartOf(t) == CASE t = "c32" -> "f32" [] t = "c64" -> "f64" [] OTHER -> t
\* numbers as sequences of their parts: one for real types, two for complex ones
Cast(x, from, to) ==
    LET c(y) == CastT(y, Types[PartOf(from)], Types[PartOf(to)]) IN
    IF to = "bool" THEN <<IF \A i \in DOMAIN x : x[i] = Num0 THEN Num0 ELSE One4>>
    ELSE IF IsC(to) THEN (IF IsC(from) THEN <<c(x[1]), c(x[2])>> ELSE <<c(x[1]), Num0>>)
    ELSE <<c(x[1])>>

(********************************* promotion **********************************)
\* of two real types, given as (kind, width or precision)
Double == <<"f", DP>>
PromT(a, b) ==
    LET lo == IF a[1] \in {"f"} THEN b ELSE a
        hi == IF a[1] \in {"f"} THEN a ELSE b
    IN
    CASE a[1] = "b" -> b
      [] b[1] = "b" -> a
      [] a[1] = b[1] -> IF a[2] >= b[2] THEN a ELSE b
      [] hi[1] = "f" -> IF lo[2] > SmallW THEN Double ELSE hi     \* single precision holds integers of 16 bits
      [] OTHER ->                                              \* a signed and an unsigned integer
           LET i == IF a[1] = "i" THEN a[2] ELSE b[2]
               u == IF a[1] = "u" THEN a[2] ELSE b[2]
           IN  IF i > u THEN <<"i", i>> ELSE IF u >= MaxW THEN Double ELSE <<"i", 2 * u>>
\* the name of the promoted type; the types of machine size win over those of 64 bits
Promote(a, b) ==
    LET r == PromT(Types[PartOf(a)], Types[PartOf(b)]) IN
    IF IsC(a) \/ IsC(b) THEN (IF r[1] = "f" /\ r[2] = SP THEN "c32" ELSE "c64")
    ELSE LET names == {n \in DOMAIN Types : Types[n] = r} IN
         IF a \in names /\ b \in names THEN (IF a \in {"isize", "usize"} THEN a ELSE b)
         ELSE IF a \in names THEN a ELSE IF b \in names THEN b ELSE CHOOSE n \in names : n \notin {"isize", "usize"}
\* order of real numbers (none is NaN)
Rank3(x) == IF x.k = 0 THEN 0 ELSE IF x.k = 3 THEN 1 ELSE IF x.k = 4 THEN 2 ELSE 3
LessMag(x, y) == IF Rank3(x) # Rank3(y) THEN Rank3(x) < Rank3(y) ELSE Less(x.m, y.m)
Lt(x, y) == IF x.s # y.s THEN x.s = 1 ELSE IF x.s = 0 THEN LessMag(x, y) ELSE LessMag(y, x)
\* elementwise operations on operands of two types: both become the promoted type first
Mixed(op, x, y, a, b) ==
    LET r == Promote(a, b)
        p == Cast(x, a, r)[1]
        q == Cast(y, b, r)[1]
        B(c) == <<IF c THEN One4 ELSE Num0>>
    IN  CASE op = "max" -> <<IF Lt(p, q) THEN q ELSE p>>
          [] op = "min" -> <<IF Lt(q, p) THEN q ELSE p>>
          [] op = "eq" -> B(p = q)
          [] op = "ne" -> B(p # q)
          [] op = "lt" -> B(Lt(p, q))
          [] op = "ge" -> B(~Lt(p, q))
MixedType(op, a, b) == IF op \in {"max", "min"} THEN Promote(a, b) ELSE "bool"

(****************************** arrays along an axis ******************************)
\* Packing the axis (of length n, adjacent in memory): every other index denotes one array.
\* [ok, may, sh]: refused when ~ok; may be refused when the memory does not fit
PackOp(sh, st, of, len, n, axis) ==
    IF ~AxisOk(axis, Len(sh)) THEN Bad
    ELSE LET a == NormAx(axis, Len(sh)) + 1 IN
         IF sh[a] # n \/ n = 0 THEN Bad
         ELSE LET fits == /\ st[a] = 1 /\ of % n = 0 /\ len % n = 0
                          /\ \A k \in DOMAIN sh : k = a \/ sh[k] <= 1 \/ (Abs(st[k]) % n) = 0
                  out == RemoveIdx(sh, {a})
              IN  [ok |-> TRUE, may |-> ~fits \/ Prod(sh) = 0, sh |-> out, ax |-> a,
                   \* positions (0-based, row-major) of the source in the order of arrays and their elements
                   src |-> [q \in 0 .. (Prod(sh) - 1) |->
                              LET o == Unravel(q \div n, out)
                                  idx == InsertOne(o, a, q % n)
                              IN  Ravel(idx, sh)]]
\* Unpacking places the axis of array elements at position axis
UnpackOp(sh, n, axis) ==
    IF axis < -(Len(sh) + 1) \/ axis > Len(sh) THEN Bad
    ELSE LET a == (IF axis < 0 THEN axis + Len(sh) + 1 ELSE axis) + 1
             new == InsertOne(sh, a, n)
         IN  [ok |-> TRUE, sh |-> new,
              src |-> [p \in 0 .. (Prod(new) - 1) |->
                         LET idx == Unravel(p, new)
                             o == RemoveIdx(idx, {a})
                         IN  Ravel(o, sh) * n + idx[a]]]
===============================================================================
