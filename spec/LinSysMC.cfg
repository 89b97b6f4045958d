SPECIFICATION Spec
CONSTANTS N = 2 Vals <- V2
INVARIANT Inv
