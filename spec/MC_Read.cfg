SPECIFICATION Spec
CONSTANTS MaxStr = 5 MaxSeq = 5
INVARIANTS RoundTrip Shortest Bounded NoInvention LeadOk Export
CHECK_DEADLOCK FALSE
