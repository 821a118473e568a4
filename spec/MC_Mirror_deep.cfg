SPECIFICATION Spec
CONSTANTS
  Steps = 3
  MaxSize = 12
  MaxRank = 4
  Shapes <- ShapesDeep
INVARIANTS MirrorImages Involution
CHECK_DEADLOCK FALSE
