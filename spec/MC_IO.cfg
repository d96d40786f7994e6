SPECIFICATION Spec
CONSTANTS MaxScript = 3 Total = 5
INVARIANTS Complete Blame NoFalseError Export
PROPERTIES Progress Settles
CHECK_DEADLOCK FALSE
