SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    Steps = 4
    Wide = 140
    Types <- SmallTypes
    SP <- SmallSP
    DP <- SmallDP
    MaxW <- SmallMaxW
    SmallW <- SmallSmallW
INVARIANTS InRange Kept AliasSame
PROPERTY SrcSame
