CONSTANTS
  MaxHops = 4
  MaxOdd = 1
SPECIFICATION Spec
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
