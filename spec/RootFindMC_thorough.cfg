SPECIFICATION Spec
CONSTANTS N = 9 Max = 5
INVARIANTS Bracket Kept Truth Limit Bisect Scan Outward DLaw
PROPERTY Ends
CHECK_DEADLOCK FALSE
