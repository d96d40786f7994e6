CONSTANTS
  MaxEntries = 3
SPECIFICATION Spec
INVARIANTS SoFar AllThere Export
CHECK_DEADLOCK FALSE
