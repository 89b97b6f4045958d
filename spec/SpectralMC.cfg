SPECIFICATION Spec
CONSTANTS N = 2 Vals <- V4 Steps = 3
INVARIANT Inv
