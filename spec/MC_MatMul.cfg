SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxDim = 3 M = 1 N = 1 K = 1 BM = 2 BN = 2 BK = 1 Alpha = 2 Beta = 3 Wrong = FALSE What = "plan" Emit = TRUE
INVARIANTS RowMajor Mirror DotIsProduct DotShape EmitReq
CHECK_DEADLOCK FALSE
