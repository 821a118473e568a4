SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  MaxLen = 6
INVARIANTS ExactlyOnce FirstMinimum NeverTwice
CHECK_DEADLOCK FALSE
