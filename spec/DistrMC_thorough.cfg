SPECIFICATION Spec
CONSTANT Steps = 40
INVARIANTS Range01 Grows Fits Kin Moments
CHECK_DEADLOCK FALSE
