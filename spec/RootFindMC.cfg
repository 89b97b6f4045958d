SPECIFICATION Spec
CONSTANTS N = 6 Max = 3
INVARIANTS Bracket Kept Truth Limit Bisect Scan Outward DLaw
PROPERTY Ends
CHECK_DEADLOCK FALSE
