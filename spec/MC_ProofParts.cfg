SPECIFICATION Spec
CONSTANTS
  Numbers <- Big
  MaxLen = 1
  Long = FALSE
INVARIANTS Same Faithful Export
CHECK_DEADLOCK FALSE
