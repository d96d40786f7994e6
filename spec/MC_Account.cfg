CONSTANTS
  MaxDev = 1
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Export
CHECK_DEADLOCK FALSE
