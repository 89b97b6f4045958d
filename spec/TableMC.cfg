CONSTANTS Depth = 0 Alpha = {97, 34, 44, 9, 124, 92, 38, 60, 123, 126, 10, 32} MaxLen = 1 MaxRows = 2
SPECIFICATION Spec
INVARIANTS ReadsBack Refuses
