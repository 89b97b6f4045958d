SPECIFICATION Spec
CONSTANTS N = 5 M = 3
INVARIANTS Bracketed NotWorse KeepsMinimum Simple
PROPERTY Law
CHECK_DEADLOCK FALSE
