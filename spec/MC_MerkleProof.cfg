CONSTANTS
  MaxLeaves = 6
  Modes = {99,1,3,5}
SPECIFICATION Spec
INVARIANTS Complete Sound Export
CHECK_DEADLOCK FALSE
