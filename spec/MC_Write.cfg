SPECIFICATION Spec
CONSTANTS Shapes <- ShapesQuick Sources <- SourcesQuick MaxViews = 2 MaxWrites = 1 Emit = TRUE
INVARIANTS InBounds SourceKept AnyOrder RefusedRight EmitHist
PROPERTIES OnlyAddressed
CHECK_DEADLOCK FALSE
