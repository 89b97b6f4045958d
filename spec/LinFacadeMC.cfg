CONSTANTS Depth = 0 KeyWithTol = TRUE Kinds = {"sym", "upper"} NM = 3
SPECIFICATION Spec
INVARIANTS Fresh MemoTrue
CONSTRAINT Small
