CONSTANTS
  MaxLeaves = 9
  MaxBatch = 5
  EarlyBreak = FALSE
SPECIFICATION Spec
INVARIANTS Consistent CacheRight
CHECK_DEADLOCK FALSE
