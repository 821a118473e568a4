------------------------------ MODULE MC_Refusal ------------------------------
(***************************************************************************)
(* A client asks for views of an array, with numbers of every size.  Each  *)
(* request is answered, and the client goes on with the answer, or it is   *)
(* refused, and nothing changes.                                           *)
(*   WellFormed   an answer holds as many elements as its shape says       *)
(*   NothingNew   every element of an answer was an element of the array   *)
(*   Whole        rearrangements keep every element exactly once           *)
(*   Clamped      numbers beyond Lim are as good as Lim (what recorded     *)
(*                programs rely on)                                        *)
(*   Aliases      an axis counted from the end is the axis counted from    *)
(*                the front                                                *)
(*   Steady       a refusal changes nothing                                *)
(***************************************************************************)
EXTENDS Refusal
CONSTANTS MaxRank, MaxDim, Depth, Lim

VARIABLES arr,   \* the array the client has
          was,   \* the array before the last request
          req,   \* the last request [op, a, o]
          got,   \* its verdict
          depth
vars == <<arr, was, req, got, depth>>

Num == {-2 * Lim, -Lim, -3, -2, -1, 0, 1, 2, 3, Lim, 2 * Lim}
Opts == {<<>>} \cup {<<x>> : x \in Num}
Dims == 0 .. MaxDim
Shapes == UNION {[1 .. n -> Dims] : n \in 0 .. MaxRank}
Iota(sh) == [sh |-> sh, v |-> [p \in 1 .. Prod(sh) |-> p]]
Lists(S, k) == UNION {[1 .. n -> S] : n \in 0 .. k}

Items == {[k |-> "i", v |-> x] : x \in Num} \cup {[k |-> "n"], [k |-> "e"]}
         \cup {[k |-> "s", a |-> x, o |-> y, p |-> z] : x \in Opts, y \in Opts, z \in {<<>>, <<-2 * Lim>>, <<-1>>, <<0>>, <<2>>}}
Some == {-Lim, -1, 0, 1, Lim}
Short == {[k |-> "i", v |-> 0], [k |-> "n"], [k |-> "e"], [k |-> "s", a |-> <<1>>, o |-> <<>>, p |-> <<>>]}
Requests(n) ==
    [op : {"slice"}, a : [items : {<<x>> : x \in Items} \cup [1 .. 2 -> Short]]]
    \cup [op : {"flip", "squeeze"}, a : [none : {FALSE}, ax : Lists(Num, 1) \cup [1 .. 2 -> Some]] \cup [none : {TRUE}, ax : {<<>>}]]
    \cup [op : {"expand"}, a : [none : {FALSE}, ax : Lists(Num, 2)] \cup [none : {TRUE}, ax : {<<>>}]]
    \cup [op : {"transpose"}, a : [none : {FALSE}, ax : [1 .. n -> Some \cup {-2, 2}] \cup {<<0>>}] \cup [none : {TRUE}, ax : {<<>>}]]
    \cup [op : {"swapaxes"}, a : [a : Num, b : Num]]
    \cup [op : {"moveaxis"}, a : [none : {FALSE}, src : {<<x>> : x \in Num}, dst : {<<x>> : x \in Num}]]
    \cup [op : {"diagonal"}, a : [off : {<<x>> : x \in Num}, a1 : {<<x>> : x \in Some}, a2 : {<<x>> : x \in Some \cup {2, -2}}]]
    \cup [op : {"unstack"}, a : [a : Num]]
    \cup [op : {"select"}, a : [a : Num, idx : Lists(Num, 1)]]
    \cup [op : {"reshape"}, a : [none : {FALSE}, sh : Lists(-2 .. 2, 3)]]
    \cup [op : {"broadcast"}, a : [sh : Lists(0 .. 2, 3)]]

\* ------------------------------------------------------------ transitions
Go(v) == IF v.w = "yes" /\ Len(v.outs) > 0 THEN v.outs[1] ELSE arr
Ask == /\ depth < Depth
       /\ \E r \in Requests(Len(arr.sh)), o \in {"C", "F"} :
            LET v == Verdict(r.op, r.a, <<arr>>, o, 0) IN
            /\ got' = v
            /\ req' = [op |-> r.op, a |-> r.a, o |-> o]
            /\ arr' = Go(v)
       /\ was' = arr
       /\ depth' = depth + 1
None == [op |-> "none", a |-> <<>>, o |-> "C"]
Init == /\ arr \in {Iota(sh) : sh \in Shapes}
        /\ was = arr
        /\ req = None
        /\ got = AnyW
        /\ depth = 0
Next == Ask
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what holds
Asked == req.op # "none"
WellFormed == Asked => /\ got.w \in {"yes", "no", "any"}
                       /\ \A i \in DOMAIN got.outs : Len(got.outs[i].v) = Prod(got.outs[i].sh)
NothingNew == Asked => \A i \in DOMAIN got.outs : Rng(got.outs[i].v) \subseteq Rng(was.v)
Whole == (Asked /\ got.w = "yes" /\ req.op \in {"flip", "squeeze", "expand", "transpose", "swapaxes", "moveaxis", "reshape"}) =>
            /\ Prod(arr.sh) = Prod(was.sh)
            /\ Rng(arr.v) = Rng(was.v)
Clamp(x) == IF x > Lim THEN Lim ELSE IF x < -Lim THEN -Lim ELSE x
ClampL(x) == [i \in DOMAIN x |-> Clamp(x[i])]
ClampItem(x) == IF x.k = "i" THEN [x EXCEPT !.v = Clamp(x.v)]
                ELSE IF x.k = "s" THEN [k |-> "s", a |-> ClampL(x.a), o |-> ClampL(x.o), p |-> ClampL(x.p)] ELSE x
ClampField(f, x) == IF f = "items" THEN [i \in DOMAIN x |-> ClampItem(x[i])]
                    ELSE IF f = "none" THEN x
                    ELSE IF f \in {"a", "b"} THEN Clamp(x)
                    ELSE ClampL(x)
ClampArgs(a) == [f \in DOMAIN a |-> ClampField(f, a[f])]
Clamped == Asked => Verdict(req.op, ClampArgs(req.a), <<was>>, req.o, 0) = got
\* every axis counted from the other end
Turn(x, n) == IF ~AxisOk(x, n) THEN x ELSE IF x < 0 THEN x + n ELSE x - n
TurnL(x, n) == [i \in DOMAIN x |-> Turn(x[i], n)]
TurnArgs(op, a, n) ==
    [f \in DOMAIN a |->
        IF f \in {"a", "b"} THEN Turn(a[f], n)
        ELSE IF f \in {"src", "dst", "a1", "a2"} THEN TurnL(a[f], n)
        ELSE IF f = "ax" THEN TurnL(a[f], IF op = "expand" THEN n + Len(a[f]) ELSE n)
        ELSE a[f]]
Aliases == (Asked /\ req.op # "slice") => Verdict(req.op, TurnArgs(req.op, req.a, Len(was.sh)), <<was>>, req.o, 0) = got
Steady == (Asked /\ got.w # "yes") => arr = was
===============================================================================
