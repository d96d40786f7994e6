SPECIFICATION Spec
INVARIANTS Agree SameBytes Export
CHECK_DEADLOCK FALSE
