SPECIFICATION Spec
CONSTANTS MaxV = 2
INVARIANTS AtMostOne Exact WireBack Inverse Export
CHECK_DEADLOCK FALSE
