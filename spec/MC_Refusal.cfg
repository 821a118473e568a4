SPECIFICATION Spec
CONSTANTS
    MaxRank = 3
    MaxDim = 2
    Depth = 1
    Lim = 7
INVARIANTS WellFormed NothingNew Whole Clamped Aliases Steady
CHECK_DEADLOCK FALSE
