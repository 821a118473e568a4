SPECIFICATION Spec
CONSTANTS
  Lim = 12
  Side = 4
INVARIANTS ArangeIs LinspaceIs EyeMirror LikeIs
CHECK_DEADLOCK FALSE
