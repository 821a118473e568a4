SPECIFICATION Spec
CONSTANTS MaxRank = 1 MaxDim = 1 M = 3 N = 3 K = 3 BM = 2 BN = 2 BK = 2 Alpha = 2 Beta = 3 Wrong = TRUE What = "block" Emit = TRUE
INVARIANTS Tiled
CHECK_DEADLOCK FALSE
