SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 2
  Workers = {w1, w2}
  DstStep = 3
  SrcStep <- MinusTwo
  SrcOff = 6
INVARIANTS AtMostOnce RightValue AllOnceWhenDone NoOverlap
PROPERTY Ends
CHECK_DEADLOCK FALSE
