CONSTANTS Depth = 3
          Top = 3
SPECIFICATION Spec
INVARIANT ExactUpTo
INVARIANT SomeError
INVARIANT EstimateCovers
INVARIANT DualIsD
INVARIANT DIsLimit
CHECK_DEADLOCK FALSE
