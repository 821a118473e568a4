------------------------------- MODULE MC_Dist --------------------------------
(***************************************************************************)
(* The definitions of Dist over all short rows, and the division of the    *)
(* table of all pairs into blocks that threads fill in any order.          *)
(***************************************************************************)
EXTENDS Dist
CONSTANTS Cols,      \* columns of the rows
          Lim,       \* entries are -Lim .. Lim
          WLim,      \* weights are 0 .. WLim
          Side,      \* the table has up to Side rows and columns
          Block      \* sides of the blocks
VARIABLES q, left, out
vars == <<q, left, out>>
Flt == {"sqeuclidean", "cityblock", "minkowski", "chebyshev", "canberra", "braycurtis", "hamming", "cosine", "correlation"}
Boo == {"jaccard", "dice", "yule", "rogerstanimoto", "russellrao", "sokalsneath", "hamming"}
Ws == [1 .. Cols -> 0 .. WLim]
Starts(n, b) == {i \in 0 .. n - 1 : i % b = 0}
Blocks(m, n, b) == Starts(m, b) \X Starts(n, b)
Cells(m, n) == (0 .. m - 1) \X (0 .. n - 1)
Init == \/ /\ \E met \in Flt, u \in [1 .. Cols -> -Lim .. Lim], v \in [1 .. Cols -> -Lim .. Lim], w \in Ws :
                q = [k |-> "rows", met |-> met, u |-> u, v |-> v, w |-> w]
           /\ left = {} /\ out = <<>>
        \/ /\ \E met \in Boo, u \in [1 .. Cols -> 0 .. 1], v \in [1 .. Cols -> 0 .. 1], w \in Ws :
                q = [k |-> "rows", met |-> met, u |-> u, v |-> v, w |-> w]
           /\ left = {} /\ out = <<>>
        \/ /\ \E u \in [1 .. Cols -> 0 .. Lim], v \in [1 .. Cols -> 0 .. Lim] :
                q = [k |-> "rows", met |-> "jensenshannon", u |-> u, v |-> v, w |-> Ones(Cols)]
           /\ left = {} /\ out = <<>>
        \/ \E m \in 0 .. Side, n \in 0 .. Side, b \in Block :
             /\ q = [k |-> "table", m |-> m, n |-> n, b |-> b]
             /\ left = Blocks(m, n, b)
             /\ out = [c \in Cells(m, n) |-> 0]
\* some thread fills some block that nobody has filled
Next == \E t \in left :
    /\ left' = left \ {t}
    /\ out' = [c \in DOMAIN out |-> IF c[1] \in t[1] .. t[1] + q.b - 1 /\ c[2] \in t[2] .. t[2] + q.b - 1
                                    THEN out[c] + 1 ELSE out[c]]
    /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

\* every cell is written at most once at any time, and exactly once when nothing is left
OnceOnly == q.k = "table" => \A c \in DOMAIN out : out[c] \in {0, 1} /\ (left = {} => out[c] = 1)

D(u, v, w) == Distance(q.met, 3, u, v, w)
Rat == q.k = "rows"
Same(a, b) == a = b \/ (q.met # "jensenshannon" /\ (a.den = 0 <=> b.den = 0) /\ (a.den # 0 => a.num * b.den = b.num * a.den))
Symmetric == Rat => Same(D(q.u, q.v, q.w), D(q.v, q.u, q.w))
DenPositive == Rat => D(q.u, q.v, q.w).den >= 0
\* the distance of a row to itself: none, or perfect correlation
Identity == Rat => LET d == D(q.u, q.u, q.w)
                   IN  d.den # 0 => IF q.met \in {"cosine", "correlation"} THEN d.num = d.den
                                    ELSE IF q.met = "russellrao" THEN d.num <= d.den
                                    ELSE IF q.met = "jensenshannon" THEN Abs(d.num) <= 4 * (d.den \div LnScale)   \* rounded logarithms
                                    ELSE d.num = 0
\* ratios stay between nothing and one, correlations between minus one and one
Bounded == Rat => LET d == D(q.u, q.v, q.w)
                  IN  d.den # 0 =>
                        CASE q.met \in Boo -> d.num >= 0 /\ d.num <= d.den * (IF q.met = "yule" THEN 2 ELSE 1)
                          [] q.met \in {"cosine", "correlation"} -> Abs(d.num) <= d.den
                          [] q.met = "jensenshannon" -> d.num >= -(8 * (d.den \div LnScale)) /\ d.num <= d.den
                          [] OTHER -> d.num >= 0
\* a weight counts a column that many times
Repeated(x, w) == FoldLeft(LAMBDA a, i : a \o [j \in 1 .. w[i] |-> x[i]], <<>>, [i \in 1 .. Len(x) |-> i])
WeightCounts == (Rat /\ q.met # "jensenshannon") =>
    LET n == SumSeq(q.w)
        a == D(q.u, q.v, q.w)
        b == D(Repeated(q.u, q.w), Repeated(q.v, q.w), Ones(n))
    IN  Same(a, b)
\* columns may be taken in any order
Reordered == Rat => Same(D(q.u, q.v, q.w), D(RevSeq(q.u), RevSeq(q.v), RevSeq(q.w)))
\* the distance between rows of truth values is the one between their complements in some metrics
Complement(x) == [i \in DOMAIN x |-> 1 - x[i]]
Complemented == (Rat /\ q.met \in {"rogerstanimoto", "yule", "hamming"} /\ Rng(q.u) \cup Rng(q.v) \subseteq {0, 1}) =>
    Same(D(q.u, q.v, q.w), D(Complement(q.u), Complement(q.v), q.w))
===============================================================================
