SPECIFICATION Spec
CONSTANTS MaxStr = 5 MaxLst = 5 MaxAny = 36
INVARIANTS RoundTrip Shortest Identity Bounded Export
CHECK_DEADLOCK FALSE
