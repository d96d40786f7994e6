CONSTANTS
  MaxDev = 1
  Modes = {"state", "account"}
SPECIFICATION Spec
INVARIANTS Distinct NothingInvented Table Export
CHECK_DEADLOCK FALSE
