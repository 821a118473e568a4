SPECIFICATION Spec
CONSTANTS Shapes <- ShapesQuick Strides <- StridesQuick Operands = 2 Steps = 1 OneSided = TRUE
INVARIANTS SameVisits
CHECK_DEADLOCK FALSE
