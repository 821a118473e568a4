SPECIFICATION Spec
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
