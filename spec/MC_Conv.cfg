SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    Steps = 2
    Wide = 9
    Types <- SmallTypes
    SP <- SmallSP
    DP <- SmallDP
    MaxW <- SmallMaxW
    SmallW <- SmallSmallW
INVARIANTS InRange Kept AliasSame
PROPERTY SrcSame
