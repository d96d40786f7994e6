SPECIFICATION Spec
CONSTANTS MaxWalk = 5
INVARIANTS VersionsDeclared Export
CHECK_DEADLOCK FALSE
