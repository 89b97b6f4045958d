CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANT OrderConditions
INVARIANT RowSums
CHECK_DEADLOCK FALSE
