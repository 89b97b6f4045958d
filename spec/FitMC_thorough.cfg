CONSTANTS MaxN = 4
          Top = 3
SPECIFICATION Spec
INVARIANT Solves
INVARIANT Best
INVARIANT R2Law
INVARIANT Shift
INVARIANT OnLine
INVARIANT RankLaw
INVARIANT KapLaw
CHECK_DEADLOCK FALSE
