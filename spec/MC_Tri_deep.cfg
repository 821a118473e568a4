SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NMax = 3
          Vals = {0, 1}
INVARIANTS Bijective RoundTrip Masks
