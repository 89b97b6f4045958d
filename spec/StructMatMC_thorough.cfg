SPECIFICATION SpecMC
CONSTANTS Gen = FALSE MaxLen = 4
INVARIANT Inv
CONSTRAINT Bound
