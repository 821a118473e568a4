----------------------------- MODULE Elementwise ------------------------------
(***************************************************************************)
(* Elementwise operations: scalar meaning, lifted over broadcasting.       *)
(* A tensor value is [sh, v] with v in row-major order of the index.       *)
(* Transcendental scalar functions are uninterpreted: tables T1[f][code]   *)
(* and T2[f][x+7][y+7] supplied by the environment give their values; what *)
(* is specified here is which scalars they are applied to, and where the   *)
(* results go.                                                             *)
(***************************************************************************)
EXTENDS NdArray, Bitwise

B2I(b) == IF b THEN 1 ELSE 0
TruncDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
FloorDiv(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)
\* bitwise operations on two's complement numbers of 12 bits
W == 4096
ToU(x) == x % W
ToS(u) == IF u >= W \div 2 THEN u - W ELSE u
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Sc2(T2, op, x, y) ==
    CASE op = "add" -> x + y
      [] op = "sub" -> x - y
      [] op = "mul" -> x * y
      [] op = "div" -> TruncDiv(x, y)      \* floating-point operands are chosen to divide exactly
      [] op = "rem" -> x - y * TruncDiv(x, y)
      [] op = "floor_divide" -> FloorDiv(x, y)
      [] op = "bitand" -> ToS(ToU(x) & ToU(y))
      [] op = "bitor" -> ToS(ToU(x) | ToU(y))
      [] op = "bitxor" -> ToS(ToU(x) ^^ ToU(y))
      [] op = "shl" -> x * 2 ^ y
      [] op = "shr" -> x \div 2 ^ y
      [] op = "maximum" -> Max2(x, y)
      [] op = "minimum" -> Min2(x, y)
      [] op = "equal" -> B2I(x = y)
      [] op = "not_equal" -> B2I(x # y)
      [] op = "less" -> B2I(x < y)
      [] op = "less_equal" -> B2I(x <= y)
      [] op = "greater" -> B2I(x > y)
      [] op = "greater_equal" -> B2I(x >= y)
      [] op = "g" -> 3 * x - 2 * y
      [] OTHER -> T2[op][x + 7][y + 7]

\* unary functions on integers
Sc1I(T1, op, x) ==
    CASE op = "neg" -> -x
      [] op = "not" -> -x - 1
      [] op = "abs" -> Abs(x)
      [] op = "sign" -> Sgn(x)
      [] op = "square" -> x * x
      [] op = "real" -> x
      [] op = "signbit" -> B2I(x < 0)
      [] op = "f" -> 2 * x + 1
      [] OTHER -> T1[op][x + 13]
\* unary functions on numbers c/2; exact results in quarter units
Quarter(x) == 4 * x
Sc1F(T1, op, c) ==
    LET fl == c \div 2
        ce == -((-c) \div 2)
        rd == IF c >= 0 THEN (c + 1) \div 2 ELSE -((-c + 1) \div 2)   \* half away from zero
    IN
    CASE op = "neg" -> -2 * c
      [] op \in {"real", "conj"} -> 2 * c
      [] op = "imag" -> 0
      [] op = "abs" -> 2 * Abs(c)
      [] op = "sign" -> Quarter(Sgn(c))
      [] op = "square" -> c * c
      [] op = "floor" -> Quarter(fl)
      [] op = "ceil" -> Quarter(ce)
      [] op = "trunc" -> Quarter(IF c >= 0 THEN fl ELSE ce)
      [] op = "round" -> Quarter(rd)
      [] op = "signbit" -> B2I(c < 0)
      [] op \in {"is_nan", "is_inf"} -> 0
      [] op = "is_finite" -> 1
      [] op = "f" -> 2 * c + 1
      [] OTHER -> T1[op][c + 13]

Fail_ == [ok |-> FALSE, sh |-> <<>>, v |-> <<>>]
Val(sh, f(_)) == [ok |-> TRUE, sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> f(p - 1)]]
Map1(a, F(_)) == Val(a.sh, LAMBDA p : F(a.v[p + 1]))
\* two operands broadcast against each other in order o
Map2(a, b, o, F(_, _)) ==
    IF ~BcOk2(a.sh, b.sh, o) THEN Fail_
    ELSE LET big == BcShape2(a.sh, b.sh, o)
         IN  IF a.sh = big /\ b.sh = big THEN Val(big, LAMBDA p : F(a.v[p + 1], b.v[p + 1]))
             ELSE Val(big, LAMBDA p : F(a.v[BcPos(p, big, a.sh, o) + 1], b.v[BcPos(p, big, b.sh, o) + 1]))
\* both operands broadcast to the given output shape
Into(c, a, b, o, F(_, _)) ==
    IF ~BroadcastToOp(a.sh, c, o).ok \/ ~BroadcastToOp(b.sh, c, o).ok THEN Fail_
    ELSE Val(c, LAMBDA p : F(a.v[BcPos(p, c, a.sh, o) + 1], b.v[BcPos(p, c, b.sh, o) + 1]))
BroadcastVal(a, big, o) ==
    IF ~BroadcastToOp(a.sh, big, o).ok THEN Fail_
    ELSE Val(big, LAMBDA p : a.v[BcPos(p, big, a.sh, o) + 1])
\* contents of a buffer after the addressed cells received new values
PutVals(buf, sh, st, of, v) ==
    LET ad == AddrSeq(sh, st, of)
    IN  [i \in 1 .. Len(buf) |-> IF \E p \in DOMAIN ad : ad[p] = i - 1
                                 THEN v[CHOOSE p \in DOMAIN ad : ad[p] = i - 1] ELSE buf[i]]
===============================================================================
