CONSTANTS
  MaxDev = 2
SPECIFICATION Spec
INVARIANT Guarded
INVARIANT Complete
INVARIANT Export_
CHECK_DEADLOCK FALSE
