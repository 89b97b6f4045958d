SPECIFICATION SpecMC
CONSTANTS Gen = FALSE MaxLen = 0 D = 3 CC = 2
INVARIANT Laws
