SPECIFICATION Spec
CONSTANT L = 10000000
CHECK_DEADLOCK FALSE
