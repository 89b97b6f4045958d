SPECIFICATION Spec
CONSTANT Steps = 12
INVARIANTS Range01 Grows Fits Kin Moments
CHECK_DEADLOCK FALSE
