SPECIFICATION Spec
CONSTANTS
  Lim = 5
  Side = 2
INVARIANTS ArangeIs LinspaceIs EyeMirror LikeIs
CHECK_DEADLOCK FALSE
