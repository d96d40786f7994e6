SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS SubTree Export
CHECK_DEADLOCK FALSE
