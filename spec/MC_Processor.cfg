CONSTANTS
  BlockCap = 1
  ReqCap = 0
  Depth = 7
  MaxBlocks = 5
  MaxReqs = 4
  Bad = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Nothing Busy NoDeadlock Export
CHECK_DEADLOCK FALSE
