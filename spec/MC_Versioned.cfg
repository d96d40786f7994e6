SPECIFICATION Spec
INVARIANTS RoundTrip Prefix Export
CHECK_DEADLOCK FALSE
