SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  MaxLen = 5
INVARIANTS ExactlyOnce FirstMinimum NeverTwice
CHECK_DEADLOCK FALSE
