------------------------------- MODULE MC_Bcast -------------------------------
(***************************************************************************)
(* The broadcasting rule as a machine that folds operands one at a time    *)
(* into an accumulated shape.  Checked over all triples of small shapes:   *)
(* the outcome does not depend on the order of operands, column-major mode *)
(* mirrors row-major mode, every operand can be broadcast to the result,   *)
(* and each position reads an element that agrees with its own index.      *)
(* All pairs of shapes are emitted for replay on the library.              *)
(***************************************************************************)
EXTENDS NdArray
CONSTANTS MaxRank, MaxDim, MaxOps, Emit
VARIABLES ops, acc, okay, ord

Shapes == UNION {[1 .. n -> 0 .. MaxDim] : n \in 0 .. MaxRank}
Init == /\ ord \in {"C", "F"}
        /\ ops \in {<<a>> : a \in Shapes}
        /\ acc = ops[1]
        /\ okay = TRUE
Next == /\ okay
        /\ Len(ops) < MaxOps
        /\ \E b \in Shapes :
             /\ ops' = Append(ops, b)
             /\ okay' = BcOk2(acc, b, ord)
             /\ acc' = IF okay' THEN BcShape2(acc, b, ord) ELSE <<>>
        /\ ord' = ord
Spec == Init /\ [][Next]_<<ops, acc, okay, ord>>

Other(o) == IF o = "C" THEN "F" ELSE "C"
\* the fold agrees with the n-ary definition, in every order of the operands
Nary == LET m == BcAll(ops, ord) IN m.ok = okay /\ (okay => m.sh = acc)
Commutes == LET m == BcAll(RevSeq(ops), ord) IN m.ok = okay /\ (okay => m.sh = acc)
Mirror == LET m == BcAll([i \in 1 .. Len(ops) |-> RevSeq(ops[i])], Other(ord))
          IN  m.ok = okay /\ (okay => m.sh = RevSeq(acc))
\* the published rule, stated per axis
Rule == LET n == Len(acc)
            dims(k) == {PadTo(ops[i], n, ord)[k] : i \in 1 .. Len(ops)}
        IN  okay => /\ n = Max({Len(ops[i]) : i \in 1 .. Len(ops)})
                    /\ \A k \in 1 .. n : dims(k) \ {1} \in {{}, {acc[k]}} /\ (dims(k) = {1} => acc[k] = 1)
Reads == okay => \A i \in 1 .. Len(ops) :
            LET m == BroadcastToOp(ops[i], acc, ord) IN
            /\ m.ok
            /\ \A p \in DOMAIN m.src :
                 LET n == Len(acc)
                     x == PadTo(ops[i], n, ord)
                     mine == Unravel(m.src[p], x)
                     full == Unravel(p, acc)
                 IN  \A k \in 1 .. n : mine[k] = IF x[k] = 1 THEN 0 ELSE full[k]
Txt(q) == FoldLeft(LAMBDA a, y : IF a = "" THEN ToString(y) ELSE a \o " " \o ToString(y), "", q)
EmitPair == Emit /\ Len(ops) = 2 /\ ord = "C" => PrintT("PAIR " \o Txt(ops[1]) \o "," \o Txt(ops[2]))
===============================================================================
