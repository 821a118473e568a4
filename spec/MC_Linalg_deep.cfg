SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Vals <- ValsD
  Gauss = FALSE
  Depth = 5
INVARIANTS ExactDivision DetByElimination LeadingMinors Inverse Ranks Grams Forms Multiplicative Newton SameProduct SameSystem
CHECK_DEADLOCK FALSE
