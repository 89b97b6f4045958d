SPECIFICATION Spec
CONSTANTS Vals <- V2 Max = 6
INVARIANT Inv
