SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NMax = 2
          Vals <- V3
INVARIANTS Bijective RoundTrip Masks
