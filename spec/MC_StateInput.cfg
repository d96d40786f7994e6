CONSTANTS
  MaxDev = 1
  Sampled = FALSE
SPECIFICATION Spec
INVARIANTS Committed Export
CHECK_DEADLOCK FALSE
