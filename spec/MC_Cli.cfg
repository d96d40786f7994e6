SPECIFICATION Spec
INVARIANTS Canonical Export
CHECK_DEADLOCK FALSE
