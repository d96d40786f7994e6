CONSTANTS
  MaxEntries = 1
  MaxPath = 4
SPECIFICATION Spec
INVARIANTS Chained Export
CHECK_DEADLOCK FALSE
