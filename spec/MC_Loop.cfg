SPECIFICATION Spec
CONSTANTS Shapes <- ShapesQuick Strides <- StridesQuick Operands = 2 Steps = 2 OneSided = FALSE
INVARIANTS SameVisits
CHECK_DEADLOCK FALSE
