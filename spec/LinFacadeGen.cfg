CONSTANTS Depth = 40 KeyWithTol = TRUE Kinds = {"sym", "pd", "upper", "lower", "sparse"} NM = 6
SPECIFICATION Spec
INVARIANTS Fresh MemoTrue Emit
CONSTRAINT Bounded
