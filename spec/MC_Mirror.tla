------------------------------ MODULE MC_Mirror -------------------------------
(***************************************************************************)
(* A row-major program and its column-major mirror run side by side.  In   *)
(* every reachable state the two arrays are mirror images, and a request   *)
(* is refused by one exactly when its mirror is refused by the other.      *)
(***************************************************************************)
EXTENDS Mirror
CONSTANTS Steps, Shapes, MaxSize, MaxRank
VARIABLES c, f, step, agree

Items == {[k |-> "i", v |-> -1], [k |-> "i", v |-> 1], [k |-> "s", a |-> <<1>>, o |-> <<>>, p |-> <<>>],
          [k |-> "s", a |-> <<>>, o |-> <<>>, p |-> <<-1>>], [k |-> "n"], [k |-> "e"]}
AxR(n) == (-n - 1) .. n
Perms(n) == {p \in [1 .. n -> 0 .. n - 1] : NoDup(p)}
NoArg == [n |-> 0]
\* requests about one array; the second operand is a part of it or itself
Reqs(sh) ==
    LET n == Len(sh) IN
    {<<"slice", [items |-> <<i>>]>> : i \in Items} \cup {<<"slice", [items |-> <<i, j>>]>> : i \in Items, j \in Items}
    \cup {<<"transpose", [none |-> FALSE, ax |-> p]>> : p \in Perms(n)}
    \cup {<<"transpose", [none |-> FALSE, ax |-> p]>> : p \in {<<0>>, <<0, 0>>, <<-1, 0>>, <<3, 0>>}}
    \cup {<<"reverse", NoArg>>, <<"mtrans", NoArg>>}
    \cup {<<"swapaxes", [a |-> a, b |-> b]>> : a \in AxR(n), b \in {-1, 0, 1}}
    \cup {<<"moveaxis", [src |-> <<a>>, dst |-> <<b>>]>> : a \in AxR(n), b \in AxR(n)}
    \cup (IF n < 2 THEN {} ELSE {<<"moveaxis", [src |-> <<a, b>>, dst |-> <<x, y>>]>> : a \in {0, 1}, b \in {0, -1}, x \in {0, 1}, y \in {-1, 0}})
    \cup {<<"flip", [none |-> FALSE, ax |-> <<a>>]>> : a \in AxR(n)}
    \cup {<<"expand", [ax |-> <<a>>]>> : a \in (-n - 2) .. (n + 1)}
    \cup {<<"expand", [ax |-> <<a, b>>]>> : a \in {0, -1}, b \in {1, -2}}
    \cup {<<"squeeze", [none |-> TRUE, ax |-> <<>>]>>} \cup {<<"squeeze", [none |-> FALSE, ax |-> <<a>>]>> : a \in AxR(n)}
    \cup {<<"diagonal", [off |-> <<k>>, a1 |-> <<>>, a2 |-> <<>>]>> : k \in -2 .. 2}
    \cup {<<"diagonal", [off |-> <<k>>, a1 |-> <<a>>, a2 |-> <<b>>]>> : k \in {-1, 1}, a \in {0, -1}, b \in {0, 1}}
    \cup {<<"broadcast", [sh |-> s]>> : s \in {<<2>> \o sh, sh \o <<2>>, <<2, 3>>, <<3, 2>>, <<2, 3, 2>>}}
    \cup {<<"reshape", [sh |-> s]>> : s \in {<<-1>>, <<Prod(sh)>>, <<2, -1>>, <<-1, 2>>, <<3, 2>>, <<2, 3>>, <<2, 1, -1>>, <<0, -1>>}}
    \cup {<<"add", [n |-> k]>> : k \in 0 .. 2}
    \cup {<<"sum", [none |-> FALSE, ax |-> <<a>>]>> : a \in AxR(n)} \cup {<<"sum", [none |-> FALSE, ax |-> <<a, b>>]>> : a \in {0, 1}, b \in {-1, 0}}
    \cup {<<"matmul", [n |-> k]>> : k \in {0, 1, 2, 3}}
    \cup {<<"vecdot", [a |-> a, n |-> k]>> : a \in AxR(n), k \in {0, 2}}
    \cup {<<"concat", [a |-> a, n |-> 0]>> : a \in AxR(n)} \cup {<<"stack", [a |-> a, n |-> 0]>> : a \in (-n - 2) .. (n + 1)}
    \cup {<<"select", [a |-> a, idx |-> i]>> : a \in AxR(n), i \in {<<>>, <<1, 0, -1>>, <<2>>}}
    \cup {<<"unstack", [a |-> a]>> : a \in AxR(n)}
    \cup {<<"meshgrid", [n |-> 1]>>}
    \cup {<<"tri", [uplo |-> u, diag |-> k]>> : u \in {"L", "U"}, k \in -1 .. 1}
    \cup {<<"pack", [uplo |-> u]>> : u \in {"L", "U"}}
    \cup {<<"unpack", [uplo |-> u, symm |-> s]>> : u \in {"L", "U"}, s \in {"Sy", "Ay", "N"}}
    \cup {<<"eye", [sh |-> s, diag |-> k]>> : s \in {<<2, 3>>, <<2, 2>>}, k \in {-1, 0, 1}}
    \cup {<<"fill", [sh |-> s, n |-> 6]>> : s \in {<<2, 3>>, <<6>>, <<1, 3, 2>>, <<4>>}}
    \cup {<<"iter", [order |-> o]>> : o \in {"C", "F"}}
\* operands of a request: the array, and another one derived from it in the same way on either side
Rank1(t) == [sh |-> <<Len(t.v)>>, v |-> t.v]
First(t, o) == \* the first part along the slowest axis of the convention
    IF Len(t.sh) = 0 \/ Prod(t.sh) = 0 THEN t
    ELSE LET z == Do("slice", [items |-> IF o = "C" THEN <<[k |-> "i", v |-> 0]>> ELSE <<[k |-> "e"], [k |-> "i", v |-> 0]>>], <<t>>, o) IN z.outs[1]
Ins(op, a, t, o) ==
    CASE op = "meshgrid" -> <<[sh |-> <<2>>, v |-> <<5, 6>>], [sh |-> <<3>>, v |-> <<7, 8, 9>>]>>
      [] op = "add" -> <<t, IF a.n = 0 THEN t ELSE IF a.n = 1 THEN First(t, o) ELSE RevArr(t)>>
      [] op \in {"matmul", "vecdot"} -> <<t, CASE a.n = 0 -> t [] a.n = 1 -> First(t, o) [] a.n = 2 -> First(First(t, o), o) [] OTHER -> RevArr(t)>>
      [] op = "concat" -> <<t, t>>
      [] op = "stack" -> <<t, t, t>>
      [] OTHER -> <<t>>

Num(sh) == [sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> p]]
\* the row-major operands themselves, then mirrored one by one
Init == \E s \in Shapes : c = Num(s) /\ f = RevArr(Num(s)) /\ step = 0 /\ agree = TRUE
Small(t) == Len(t.sh) <= MaxRank /\ Prod(t.sh) <= MaxSize
Next ==
    /\ step < Steps
    /\ \E q \in Reqs(c.sh) :
        LET insC == Ins(q[1], q[2], c, "C")
            insF == MirIns(q[1], [i \in DOMAIN insC |-> RevArr(insC[i])])
        IN  /\ Free(q[1], insC)
            /\ LET rc == Do(q[1], q[2], insC, "C")
                   rf == Do(q[1], MirArgs(q[1], q[2]), insF, "F")
               IN  /\ agree' = Mirrored(q[1], rc, rf)
                   /\ IF agree' /\ rc.ok /\ Len(rc.outs) > 0
                      THEN \E i \in DOMAIN rc.outs :
                              /\ Small(rc.outs[i])
                              /\ c' = rc.outs[i]
                              /\ f' = MirOuts(q[1], rf.outs)[i]
                              /\ step' = step + 1
                      ELSE c' = c /\ f' = f /\ step' = Steps
Spec == Init /\ [][Next]_<<c, f, step, agree>>
MirrorImages == agree /\ f = RevArr(c)
\* the mirror is an involution
Involution == RevArr(RevArr(c)) = c
ShapesQuick == {<<2, 3>>, <<2, 1, 2>>, <<3>>, <<>>}
ShapesDeep == {<<2, 3>>, <<2, 1, 2>>, <<2, 2, 2>>, <<3>>, <<>>, <<0, 2>>, <<1, 3, 2>>}
===============================================================================
