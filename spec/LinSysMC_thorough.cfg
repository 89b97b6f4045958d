SPECIFICATION Spec
CONSTANTS N = 3 Vals <- V3
INVARIANT Inv
