CONSTANTS Depth = 0 KeyWithTol = TRUE Kinds = {"sym", "pd", "sparse"} NM = 4
SPECIFICATION Spec
INVARIANTS Fresh MemoTrue
CONSTRAINT Small
