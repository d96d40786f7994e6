CONSTANTS
  SlotsPerEpoch = 7140
  SlotsPerSubWindow = 7
  SubWindows = 11
  GraceEnd = 1440
  MaxList = 3
  Wide = FALSE
SPECIFICATION Spec
INVARIANTS FromInput Symmetric Total OrderFree NoForgery Stable Export
CHECK_DEADLOCK FALSE
