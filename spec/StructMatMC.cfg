SPECIFICATION SpecMC
CONSTANTS Gen = FALSE MaxLen = 3
INVARIANT Inv
CONSTRAINT Bound
