SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 6} Depth = 4 MaxPieces = 4 Emit = TRUE
INVARIANTS Once Nothing Apart Exact EmitSchedule
CHECK_DEADLOCK FALSE
