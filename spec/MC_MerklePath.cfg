CONSTANTS
  MaxLen = 8
  MaxLevel = 62
SPECIFICATION Spec
INVARIANTS Reads Export
CHECK_DEADLOCK FALSE
