SPECIFICATION Spec
CONSTANTS L = 10000 Side = 3 Deg = 8
INVARIANTS Means Formula Orbits Odd Third Table
CHECK_DEADLOCK FALSE
