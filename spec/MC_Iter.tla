-------------------------------- MODULE MC_Iter -------------------------------
(***************************************************************************)
(* All schedules of Depth steps over an iteration of N elements.  Every    *)
(* element is delivered or skipped at most once, nothing is lost, and each *)
(* piece delivers in increasing order from the front and decreasing order  *)
(* from the back.  Every schedule is emitted for replay.                   *)
(***************************************************************************)
EXTENDS IterMachine
CONSTANTS Sizes, Depth, MaxPieces, Emit
VARIABLES n, got, skipped, hist
Init == /\ n \in Sizes
        /\ pieces = (1 :> [lo |-> 0, hi |-> n])
        /\ got = <<>>
        /\ skipped = <<>>
        /\ hist = <<>>
Do(i, op, k) ==
    LET m == StepOn(pieces[i], op, k) IN
    /\ pieces' = [pieces EXCEPT ![i] = m.rest]
    /\ got' = got \o m.out
    /\ skipped' = skipped \o m.skip
    /\ hist' = Append(hist, op \o "," \o ToString(i) \o "," \o ToString(k))
    /\ n' = n
DoSplit(i, k) ==
    LET m == SplitOn(pieces[i], k)
        j == Cardinality(DOMAIN pieces) + 1
    IN
    /\ j <= MaxPieces
    /\ pieces' = (j :> m.right) @@ [pieces EXCEPT ![i] = m.left]
    /\ hist' = Append(hist, "split," \o ToString(i) \o "," \o ToString(k))
    /\ UNCHANGED <<got, skipped, n>>
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN pieces :
             \/ \E op \in {"front", "back"} : Do(i, op, 0)
             \/ \E op \in {"nth", "nthb"}, k \in 1 .. 2 : Do(i, op, k)
             \/ \E k \in 0 .. Rem(pieces[i]) : DoSplit(i, k)
Spec == Init /\ [][Next]_<<pieces, n, got, skipped, hist>>
Once == NoDup(got \o skipped)
Nothing == Rng(got) \cup Rng(skipped) \cup UNION {Ranks(pieces[i]) : i \in DOMAIN pieces} = 0 .. (n - 1)
Apart == Disjoint /\ \A i \in DOMAIN pieces : Ranks(pieces[i]) \cap (Rng(got) \cup Rng(skipped)) = {}
Exact == Len(got) + Len(skipped) + FoldLeft(LAMBDA a, i : a + Rem(pieces[i]), 0, SetToSeq(DOMAIN pieces)) = n
EmitSchedule == Emit /\ Len(hist) = Depth => PrintT("SCHED " \o ToString(n) \o FoldLeft(LAMBDA a, y : a \o ";" \o y, "", hist))
===============================================================================
