------------------------------ MODULE MC_Layout -------------------------------
(***************************************************************************)
(* Layouts as a machine: any admissible layout of the bounded family is a  *)
(* start, views of it are the steps.  Checked: admissible layouts give     *)
(* every element its own place inside the bounds, no view operation leaves *)
(* the admissible layouts (so views of good tensors are never refused, and *)
(* need no check), views stay within the addresses of their source, and    *)
(* the axis walks that implement the predicates agree with their meaning.  *)
(* All starts, admissible or not, are emitted for replay on the library.   *)
(***************************************************************************)
EXTENDS Layout
CONSTANTS Ranks, Dims, Strides, Offs, Depth, Emit
VARIABLES y, root, n
vars == <<y, root, n>>

Fam == UNION {{[sh |-> a, st |-> b, of |-> c] : a \in [1 .. r -> Dims], b \in [1 .. r -> Strides], c \in Offs} : r \in Ranks}
Good(z) == Admit(z.sh, z.st, z.of)
Init == y \in Fam /\ root = y /\ n = 0
View(z) == /\ n < Depth /\ Good(y) /\ ~Empty(z.sh)
           /\ y' = z /\ n' = n + 1 /\ root' = root
Next == ~Empty(y.sh) /\
    LET D == DOMAIN y.sh IN
    \/ \E i, j \in D : i < j /\ View(Swap(y, i, j))
    \/ \E k \in D : \E a \in 0 .. (y.sh[k] - 1) :
          \/ View(Select(y, k, a))
          \/ \E p \in {-2, -1, 1, 2} : \E m \in 1 .. y.sh[k] :
                a + (m - 1) * p \in 0 .. (y.sh[k] - 1) /\ View(Narrow(y, k, a, m, p))
    \/ \E i, j \in D : i # j /\ \E o \in (1 - y.sh[i]) .. (y.sh[j] - 1) : View(Diag(y, o, i, j))
    \/ \E k \in 1 .. (Len(y.sh) + 1) : View(Insert(y, k, 2))
Spec == Init /\ [][Next]_vars

Sound == Good(y) => /\ Distinct(y.sh, y.st, y.of)
                    /\ LET a == AddrSeq(y.sh, y.st, y.of)
                           b == Bounds(y.sh, y.st, y.of)
                       IN  \A q \in DOMAIN a : a[q] >= 0 /\ b[1] <= a[q] /\ a[q] < b[2]
Tight == (Good(y) /\ ~Empty(y.sh)) =>
            LET a == Rng(AddrSeq(y.sh, y.st, y.of)) IN Bounds(y.sh, y.st, y.of) = <<Min(a), Max(a) + 1>>
\* a broadcast source may give an overlapping diagonal, which is no tensor; everything else is closed
Closed == (n > 0 /\ 0 \notin Rng(root.st)) => Good(y)
Inside == n > 0 => Rng(AddrSeq(y.sh, y.st, y.of)) \subseteq Rng(AddrSeq(root.sh, root.st, root.of))
Walks == Empty(y.sh) \/
         /\ NContigC(y.sh, y.st) = Walk(y.sh, y.st, Len(y.sh), 1)
         /\ CContig(y.sh, y.st) <=> NContigC(y.sh, y.st) = Len(y.sh)
Prefers == /\ CContig(y.sh, y.st) => CPrefer(y.sh, y.st)
           /\ FContig(y.sh, y.st) => FPrefer(y.sh, y.st)
\* reading the contiguous leading axes as one block visits the same elements
Blocks == Empty(y.sh) \/
          LET k == NContigF(y.sh, y.st)
              m == IF k = 0 THEN 0 ELSE Prod(SubSeq(y.sh, 1, k))
              rest == [sh |-> SubSeq(y.sh, k + 1, Len(y.sh)), st |-> SubSeq(y.st, k + 1, Len(y.sh)), of |-> y.of]
          IN  TogetherN(<<rest>>, m) = Together(<<y>>)
Txt(q) == FoldLeft(LAMBDA a, x : IF a = "" THEN ToString(x) ELSE a \o " " \o ToString(x), "", q)
EmitLay == (Emit /\ n = 0) => PrintT("LAY " \o Txt(y.sh) \o "," \o Txt(y.st) \o "," \o ToString(y.of))
S1 == {-5, -3, -2, -1, 0, 1, 2, 3, 4, 6, 7}
S2 == {-4, -2, -1, 0, 1, 2, 3, 4, 6, 9}
S4 == {-4, -1, 0, 1, 2, 3, 6}
S3 == {-9, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 12}
===============================================================================
