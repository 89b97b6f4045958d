SPECIFICATION Spec
CONSTANTS N = 4 M = 2
INVARIANTS Bracketed NotWorse KeepsMinimum Simple
PROPERTY Law
CHECK_DEADLOCK FALSE
