CONSTANTS Logs = {0, 1, 2, 3, 4} Sigs = 3
SPECIFICATION Spec
INVARIANT Inv
