CONSTANTS Logs = {0, 1, 2, 3} Sigs = 2
SPECIFICATION Spec
INVARIANT Inv
