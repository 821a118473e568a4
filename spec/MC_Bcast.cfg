SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxDim = 3 MaxOps = 2 Emit = TRUE
INVARIANTS Nary Commutes Mirror Rule Reads EmitPair
CHECK_DEADLOCK FALSE
