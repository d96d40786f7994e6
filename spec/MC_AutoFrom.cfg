SPECIFICATION Spec
CONSTANTS MaxFields = 2 MaxVariants = 2
INVARIANTS Lossless Export
CHECK_DEADLOCK FALSE
