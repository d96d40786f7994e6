SPECIFICATION Spec
CONSTANTS
  Lines <- LineKinds
  Requests <- RequestKinds
  MaxEvents = 2
  MaxLines = 2
  Random = FALSE
INVARIANTS Inv Export
PROPERTY Steady
CHECK_DEADLOCK FALSE
