CONSTANTS
  MaxSpoil = 2
SPECIFICATION Spec
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
