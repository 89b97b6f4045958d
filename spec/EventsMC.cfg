CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Ordered
INVARIANT StopLast
INVARIANT NeverAgain
INVARIANT NoEcho
INVARIANT SideIs
CHECK_DEADLOCK FALSE
