SPECIFICATION Spec
CONSTANTS Ranks = {0, 1, 2} Dims = {0, 1, 2, 3} Strides <- S1 Offs = {0, 3, 10} Depth = 2 Emit = FALSE
INVARIANTS Sound Tight Closed Inside Walks Prefers Blocks EmitLay
CHECK_DEADLOCK FALSE
