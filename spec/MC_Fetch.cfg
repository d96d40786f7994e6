CONSTANTS
  Tries = 3
SPECIFICATION Spec
INVARIANTS Right Export
PROPERTY Ends
CHECK_DEADLOCK FALSE
