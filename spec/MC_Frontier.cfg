CONSTANTS
  SlotsPerEpoch = 7140
  SlotsPerSubWindow = 7
  SubWindows = 11
  GraceEnd = 1440
  Depth = 3
  Few = FALSE
SPECIFICATION Spec
INVARIANTS Matches Sound Heaviest Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
