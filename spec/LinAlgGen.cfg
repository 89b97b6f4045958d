SPECIFICATION Spec
CONSTANTS Gen = TRUE MaxLen = 40
INVARIANT Emit
