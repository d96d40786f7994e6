CONSTANTS
  MaxItems = 2
  Sampled = FALSE
SPECIFICATION Spec
INVARIANTS Fits Kept Export
CHECK_DEADLOCK FALSE
