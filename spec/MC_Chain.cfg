CONSTANTS
  SlotsPerEpoch = 7140
  SlotsPerSubWindow = 7
  SubWindows = 11
  GraceEnd = 1440
  MaxPush = 3
  MaxLong = 6
SPECIFICATION Spec
INVARIANTS Consecutive Export
PROPERTY KeepsGenesis
CHECK_DEADLOCK FALSE
