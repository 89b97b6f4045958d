SPECIFICATION Spec
CONSTANTS N = 3 Vals <- V3 Steps = 2
INVARIANT Inv
