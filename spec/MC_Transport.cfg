SPECIFICATION Spec
CONSTANTS
  Configs <- ConfigSet
  Times <- TimeSet
  MaxSteps = 3
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
