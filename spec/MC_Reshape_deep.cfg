SPECIFICATION Spec
CONSTANTS Shapes <- ShapesDeep MaxViews = 1 MaxConv = 2 Emit = TRUE
INVARIANTS InBounds KeepsSequence Back Composes Mirrored AffineExact EmitHist
CHECK_DEADLOCK FALSE
