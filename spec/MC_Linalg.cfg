SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Vals <- ValsQ
  Gauss = TRUE
  Depth = 3
INVARIANTS ExactDivision DetByElimination LeadingMinors Inverse Ranks Grams Forms Multiplicative Newton SameProduct SameSystem
CHECK_DEADLOCK FALSE
