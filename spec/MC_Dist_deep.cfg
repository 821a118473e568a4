SPECIFICATION Spec
CONSTANTS
  Cols = 3
  Lim = 2
  WLim = 1
  Side = 5
  Block = {2, 3}
INVARIANTS OnceOnly Symmetric DenPositive Identity Bounded WeightCounts Reordered Complemented
CHECK_DEADLOCK FALSE
