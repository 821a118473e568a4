SPECIFICATION Spec
CONSTANTS
  Steps = 2
  MaxSize = 12
  MaxRank = 4
  Shapes <- ShapesQuick
INVARIANTS MirrorImages Involution
CHECK_DEADLOCK FALSE
