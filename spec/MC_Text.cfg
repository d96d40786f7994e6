CONSTANTS
  MaxFree = 3
  MaxBytes = 3
  Modes = {"number", "composed", "hex", "field16", "points", "utf8", "base64", "values"}
INIT Init
NEXT Next
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
