SPECIFICATION Spec
CONSTANTS MaxWrap = 1 MaxDamage = 1
INVARIANTS Export
PROPERTIES WrapSound FileSound
CHECK_DEADLOCK FALSE
