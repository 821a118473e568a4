SPECIFICATION Spec
CONSTANTS
    MaxRank = 3
    MaxDim = 3
    Depth = 1
    Lim = 9
INVARIANTS WellFormed NothingNew Whole Clamped Aliases Steady
CHECK_DEADLOCK FALSE
