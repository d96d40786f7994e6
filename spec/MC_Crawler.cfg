SPECIFICATION Spec
CONSTANTS
  Names <- NameSet
  NameCount = 2
  MaxList = 2
INVARIANTS Inv Untouched Export
CHECK_DEADLOCK FALSE
