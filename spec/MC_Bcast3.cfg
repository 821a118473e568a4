SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxDim = 2 MaxOps = 3 Emit = FALSE
INVARIANTS Nary Commutes Mirror Rule Reads
CHECK_DEADLOCK FALSE
