SPECIFICATION Spec
CONSTANTS
  Cols = 2
  Lim = 2
  WLim = 2
  Side = 4
  Block = {2, 3}
INVARIANTS OnceOnly Symmetric DenPositive Identity Bounded WeightCounts Reordered Complemented
CHECK_DEADLOCK FALSE
