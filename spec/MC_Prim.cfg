SPECIFICATION Spec
INVARIANTS RoundTrip Minimal Export
CHECK_DEADLOCK FALSE
