SPECIFICATION Spec
INVARIANTS Sound Export
CHECK_DEADLOCK FALSE
