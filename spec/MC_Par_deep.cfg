SPECIFICATION Spec
CONSTANTS
  N = 5
  K = 2
  Workers = {w1, w2, w3}
  DstStep = 3
  SrcStep <- MinusTwo
  SrcOff = 8
INVARIANTS AtMostOnce RightValue AllOnceWhenDone NoOverlap
PROPERTY Ends
CHECK_DEADLOCK FALSE
