CONSTANTS
  MaxOps = 4
  MaxLeaves = 12
  Batches = {0,1,2,3,6}
  Modes = {99,3,6}
SPECIFICATION Spec
INVARIANTS Complete Export
CHECK_DEADLOCK FALSE
