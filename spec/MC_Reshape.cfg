SPECIFICATION Spec
CONSTANTS Shapes <- ShapesQuick MaxViews = 1 MaxConv = 1 Emit = TRUE
INVARIANTS InBounds KeepsSequence Back Composes Mirrored AffineExact EmitHist
CHECK_DEADLOCK FALSE
