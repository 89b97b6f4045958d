CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANT OrderConditions
INVARIANT RowSums
CHECK_DEADLOCK FALSE
