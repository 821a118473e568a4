SPECIFICATION Spec
CONSTANTS Ranks = {3} Dims = {1, 2, 3} Strides <- S2 Offs = {12} Depth = 1 Emit = TRUE
INVARIANTS Sound Tight Closed Inside Walks Prefers Blocks EmitLay
CHECK_DEADLOCK FALSE
