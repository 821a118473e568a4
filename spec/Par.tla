--------------------------------- MODULE Par ----------------------------------
(***************************************************************************)
(* Parallel loops over the elements of one or several strided operands.    *)
(* The outer positions 0..N-1 of the loop are handed out as ranges, which  *)
(* may be split at any place, taken by any worker and walked one position  *)
(* at a time; at each position a stretch of K neighbouring elements is     *)
(* processed.  Reading the source and writing the destination are separate *)
(* steps, so that every interleaving of the workers is a behaviour.        *)
(*                                                                         *)
(* Dst(i, k) and Src(i, k) are the cells of element k of position i.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, K, Workers, DstStep, SrcStep, SrcOff
VARIABLES tasks,  \* ranges [lo, hi) that no worker has taken
          job,    \* what each worker is doing: <<>> or <<lo, hi, k>>
          reg,    \* what each worker has read and not yet written: <<>> or <<value>>
          cnt,    \* how often each destination cell was written
          val     \* what was written last
vars == <<tasks, job, reg, cnt, val>>

Dst(i, k) == i * DstStep + k
Src(i, k) == SrcOff + i * SrcStep + k
Places == {<<i, k>> : i \in 0 .. N - 1, k \in 0 .. K - 1}
Cells == {Dst(p[1], p[2]) : p \in Places}

Init == /\ tasks = IF N = 0 THEN {} ELSE {<<0, N>>}
        /\ job = [w \in Workers |-> <<>>]
        /\ reg = [w \in Workers |-> <<>>]
        /\ cnt = [c \in Cells |-> 0]
        /\ val = [c \in Cells |-> -1]
Split(t, m) ==
    /\ t[1] < m /\ m < t[2]
    /\ tasks' = (tasks \ {t}) \cup {<<t[1], m>>, <<m, t[2]>>}
    /\ UNCHANGED <<job, reg, cnt, val>>
Take(w, t) ==
    /\ job[w] = <<>>
    /\ tasks' = tasks \ {t}
    /\ job' = [job EXCEPT ![w] = <<t[1], t[2], 0>>]
    /\ UNCHANGED <<reg, cnt, val>>
Read(w) ==
    /\ job[w] # <<>> /\ reg[w] = <<>>
    /\ reg' = [reg EXCEPT ![w] = <<Src(job[w][1], job[w][3])>>]
    /\ UNCHANGED <<tasks, job, cnt, val>>
Write(w) ==
    /\ reg[w] # <<>>
    /\ LET j == job[w]
           c == Dst(j[1], j[3])
       IN  /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
           /\ val' = [val EXCEPT ![c] = reg[w][1]]
           /\ job' = [job EXCEPT ![w] = IF j[3] + 1 < K THEN <<j[1], j[2], j[3] + 1>>
                                        ELSE IF j[1] + 1 < j[2] THEN <<j[1] + 1, j[2], 0>> ELSE <<>>]
    /\ reg' = [reg EXCEPT ![w] = <<>>]
    /\ UNCHANGED tasks
Next == \/ \E t \in tasks : \E m \in 1 .. N : Split(t, m)
        \/ \E w \in Workers : (\E t \in tasks : Take(w, t)) \/ Read(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Read(w) \/ Write(w) \/ \E t \in tasks : Take(w, t))

Done == tasks = {} /\ \A w \in Workers : job[w] = <<>>
\* destinations of different elements are different cells
Injective == \A p, q \in Places : Dst(p[1], p[2]) = Dst(q[1], q[2]) => p = q
AtMostOnce == Injective => \A c \in Cells : cnt[c] <= 1
RightValue == Injective => \A p \in Places : cnt[Dst(p[1], p[2])] > 0 => val[Dst(p[1], p[2])] = Src(p[1], p[2])
AllOnceWhenDone == (Injective /\ Done) => \A c \in Cells : cnt[c] = 1
\* the ranges still to do are disjoint, and with what is in progress they make up what is missing
NoOverlap ==
    LET rest == {<<"t", t>> : t \in tasks} \cup {<<w, job[w]>> : w \in {x \in Workers : job[x] # <<>>}}
    IN  \A x, y \in rest : x # y => (x[2][2] <= y[2][1] \/ y[2][2] <= x[2][1])
Ends == <>Done

(***************************************************************************)
(* What such a loop must leave behind, for operands given as strided       *)
(* layouts over the same shape.  The conformance checks compare records of *)
(* the library's own loops with this.                                      *)
(***************************************************************************)
===============================================================================
