CONSTANTS
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS Binding Untampered Injective MemoRound Export
CHECK_DEADLOCK FALSE
