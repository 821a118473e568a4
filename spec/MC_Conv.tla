------------------------------- MODULE MC_Conv --------------------------------
(***************************************************************************)
(* A value on its journey between element types and devices, in a world of *)
(* small types (integers of 2, 4 and 8 bits, floating-point numbers of 2   *)
(* and 6 bits of precision) over which all values are enumerated; pairs of *)
(* promotions, and tensors packed into arrays and back.                    *)
(***************************************************************************)
EXTENDS Conv
CONSTANTS Steps, Wide
SmallSP == 2
SmallDP == 6
SmallMaxW == 8
SmallSmallW == 2
SmallTypes == [bool |-> <<"b", 1>>, u2 |-> <<"u", 2>>, u4 |-> <<"u", 4>>, u8 |-> <<"u", 8>>, usize |-> <<"u", 8>>,
               i2 |-> <<"i", 2>>, i4 |-> <<"i", 4>>, i8 |-> <<"i", 8>>, isize |-> <<"i", 8>>, f32 |-> <<"f", 2>>, f64 |-> <<"f", 6>>]
Names == {"bool", "u2", "u4", "u8", "i2", "i4", "i8", "f32", "f64"}
Devs == {"A", "B"}

VARIABLES src,      \* the tensor the journey began with: [t, v, d]
          cur,      \* where it is: [t, v, d, alias] (alias: still a view of src's memory)
          exact,    \* every cast so far went to the promotion of the type with another one
          n
vars == <<src, cur, exact, n>>

\* numbers in quarters
RECURSIVE BitsN(_)
BitsN(x) == IF x = 0 THEN <<>> ELSE <<x % 2>> \o BitsN(x \div 2)
Of4(q) == Fin(IF q < 0 THEN 1 ELSE 0, BitsN(Abs(q)))
Mag(x) == FoldLeft(LAMBDA a, i : a + (IF x.m[i] = 1 THEN 2 ^ (i - 1) ELSE 0), 0, [i \in 1 .. Len(x.m) |-> i])
In4(x) == IF x.s = 1 THEN -Mag(x) ELSE Mag(x)
RECURSIVE Fits(_, _)
Fits(q, p) == \* q has at most p significant bits
    IF Abs(q) < 2 ^ p THEN TRUE ELSE (q % 2) = 0 /\ Fits(q \div 2, p)
Lim(ty) == IF ty[1] = "u" THEN <<0, 2 ^ ty[2] - 1>> ELSE <<-(2 ^ (ty[2] - 1)), 2 ^ (ty[2] - 1) - 1>>
Is(x, name) ==
    LET ty == Types[name] IN
    CASE ty[1] = "b" -> x \in {Num0, One4}
      [] ty[1] = "f" -> x.k # 0 \/ Fits(In4(x), ty[2])
      [] OTHER -> x.k = 0 /\ (In4(x) % 4) = 0 /\ In4(x) \div 4 >= Lim(ty)[1] /\ In4(x) \div 4 <= Lim(ty)[2]
\* all values of a type (of floating-point ones those below the bound)
Values(name) ==
    LET ty == Types[name] IN
    CASE ty[1] = "b" -> {Num0, One4}
      [] ty[1] = "f" -> {Of4(q) : q \in {z \in -(4 * Wide) .. (4 * Wide) : Fits(z, ty[2])}} \cup {Inf(0), Inf(1), Nan}
      [] OTHER -> {Of4(4 * z) : z \in Lim(ty)[1] .. Lim(ty)[2]}

C1(x, a, b) == Cast(<<x>>, a, b)[1]
\* integers of full width do not fit floating-point numbers
Loses(a, r) == Types[a][1] \in {"u", "i"} /\ Types[r][1] = "f" /\ Types[a][2] >= MaxW

Init == \E t \in Names : \E v \in Values(t) : \E d \in Devs :
          /\ src = [t |-> t, v |-> v, d |-> d]
          /\ cur = [t |-> t, v |-> v, d |-> d, alias |-> TRUE]
          /\ exact = TRUE /\ n = 0
CastTo(t) == /\ cur' = [t |-> t, v |-> C1(cur.v, cur.t, t), d |-> cur.d, alias |-> FALSE]
             /\ exact' = (exact /\ (\E o \in Names : t = Promote(cur.t, o)) /\ ~Loses(cur.t, t))
             /\ UNCHANGED src
MoveView(d) == cur' = [cur EXCEPT !.d = d] /\ UNCHANGED <<src, exact>>
MoveOwn(d) == cur' = [cur EXCEPT !.d = d, !.alias = FALSE] /\ UNCHANGED <<src, exact>>
\* a write through what is no longer a view leaves the source alone
Next == n < Steps /\ n' = n + 1 /\ ((\E t \in Names : CastTo(t)) \/ (\E d \in Devs : MoveView(d) \/ MoveOwn(d)))
Spec == Init /\ [][Next]_vars

InRange == Is(cur.v, cur.t)
\* promotion keeps the number itself, so it can be taken back
Kept == exact => (cur.v = src.v /\ C1(cur.v, cur.t, src.t) = src.v)
AliasSame == cur.alias => (cur.v = src.v /\ cur.t = src.t)
SrcSame == [][UNCHANGED src]_vars
\* laws of single casts, for all values
Nums(name) == {In4(z) : z \in {v \in Values(name) : v.k = 0}}
ASSUME CastLaws == \A f \in Names : \A v \in Values(f) : \A t \in Names :
    LET y == C1(v, f, t)
        a == Types[f]
        b == Types[t]
        x4 == In4(v)
        y4 == In4(y)
    IN  /\ Is(y, t)
        /\ (a[1] \in {"u", "i"} /\ b[1] \in {"u", "i"}) => ((x4 - y4) % (4 * 2 ^ b[2])) = 0
        /\ (a[1] = "f" /\ b[1] \in {"u", "i"} /\ v.k = 0) =>
             \* the nearest value between it and zero, within the range
             \A z \in Nums(t) : (Abs(z) <= Abs(x4) /\ (z >= 0) = (x4 >= 0)) => Abs(z) <= Abs(y4)
        /\ (b[1] = "f" /\ v.k = 0) => \A z \in Nums(t) : Abs(z - x4) >= Abs(y4 - x4)
        \* through a type that holds all of a: the same as directly
        /\ \A u \in Names : (a[1] \in {"u", "i"} /\ Types[u][1] = "i" /\ b[1] # "f" /\ Types[u][2] > a[2]) => C1(C1(v, f, u), u, t) = y
ASSUME PromoteLaws ==
    \A a, b \in Names :
      LET r == Promote(a, b) IN
      /\ Promote(a, a) = a /\ Promote(b, a) = r
      /\ Promote(r, a) = r /\ Promote(r, b) = r           \* an upper bound
      /\ \A v \in Values(a) : Loses(a, r) \/ C1(C1(v, a, r), r, a) = v
      \* and the least: no smaller type of its kind holds both
      /\ \A t \in Names : (Types[t][1] = Types[r][1] /\ Types[t][2] < Types[r][2]) =>
            \E v \in Values(a) \cup Values(b) : ~Is(v, t)
\* packing and unpacking
ASSUME PackLaws ==
    \A sh \in {<<2, 3>>, <<3, 2>>, <<2, 2, 3>>, <<0, 2>>, <<2>>} : \A ax \in -Len(sh) .. (Len(sh) - 1) :
      LET k == sh[NormAx(ax, Len(sh)) + 1]
          p == PackOp(sh, CStr(sh), 0, Prod(sh), k, ax)
          q == UnpackOp(p.sh, k, ax)
          N == 0 .. (Prod(sh) - 1)
      IN  IF k = 0 THEN ~p.ok
          ELSE /\ p.ok /\ {p.src[i] : i \in N} = N
               /\ q.ok /\ q.sh = sh /\ \A i \in N : p.src[q.src[i]] = i
               /\ ~p.may => \A i \in N : (p.src[i] = p.src[(i \div k) * k] + (i % k))   \* adjacent
===============================================================================
