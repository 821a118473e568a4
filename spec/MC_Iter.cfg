SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 4, 6} Depth = 3 MaxPieces = 3 Emit = TRUE
INVARIANTS Once Nothing Apart Exact EmitSchedule
CHECK_DEADLOCK FALSE
