SPECIFICATION Spec
CONSTANTS Shapes <- ShapesDeep Strides <- StridesDeep Operands = 2 Steps = 3 OneSided = FALSE
INVARIANTS SameVisits
CHECK_DEADLOCK FALSE
