CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Ordered
INVARIANT StopLast
INVARIANT NeverAgain
INVARIANT NoEcho
INVARIANT SideIs
CHECK_DEADLOCK FALSE
