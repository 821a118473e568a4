SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
