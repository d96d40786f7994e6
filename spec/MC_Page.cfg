SPECIFICATION Spec
CONSTANTS
  MaxDev = 1
  Depth = 1
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
