SPECIFICATION Spec
CONSTANTS Gen = TRUE MaxLen = 40 D = 0 CC = 1
INVARIANT Emit
