SPECIFICATION Spec
CONSTANTS
  MaxViews = 2
  Shape <- ShapeDeep
  Emit = TRUE
INVARIANTS InBounds RoundTrips Injective Strided WriteFrame EmitChain
CHECK_DEADLOCK FALSE
