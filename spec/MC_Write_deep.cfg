SPECIFICATION Spec
CONSTANTS Shapes <- ShapesDeep Sources <- SourcesDeep MaxViews = 1 MaxWrites = 2 Emit = TRUE
INVARIANTS InBounds SourceKept AnyOrder RefusedRight EmitHist
PROPERTIES OnlyAddressed
CHECK_DEADLOCK FALSE
