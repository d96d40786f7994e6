CONSTANTS
  Cap = 1
  Depth = 3
  MaxList = 1
  Three = FALSE
  SetUp = FALSE
SPECIFICATION Spec
INVARIANTS AllArrive NothingUnasked Export
PROPERTY Finishes
CHECK_DEADLOCK FALSE
