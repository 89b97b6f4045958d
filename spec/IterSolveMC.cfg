SPECIFICATION Spec
CONSTANTS Vals <- V1 Max = 4
INVARIANT Inv
