SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
ALIAS Alias
