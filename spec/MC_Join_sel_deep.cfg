SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxDim = 3 Triples = TRUE Emit = TRUE What = "sel"
INVARIANTS Uses ConcatSlices StackParts UnstackBack Associative Numpy Fits FitsStack DiagBack GridRight SelRight MaskSplits EmitReq
CHECK_DEADLOCK FALSE
