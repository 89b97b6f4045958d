CONSTANTS Depth = 40 Alpha = {97} MaxLen = 1 MaxRows = 6
SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Bounded
