SPECIFICATION Spec
CONSTANTS Depth = 3 MaxLive = 4 Emit = TRUE
INVARIANTS Ownership NoLeak EmitChain
CHECK_DEADLOCK FALSE
