SPECIFICATION Spec
CONSTANTS L = 10000 Side = 5 Deg = 10
INVARIANTS Means Formula Orbits Odd Third Table
CHECK_DEADLOCK FALSE
