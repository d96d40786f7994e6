SPECIFICATION Spec
CONSTANTS MaxSeq = 2 Tier = "quick"
INVARIANTS RoundTrip Homomorphic Export
CHECK_DEADLOCK FALSE
