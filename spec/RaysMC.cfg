SPECIFICATION Spec
CONSTANTS N = 3
Bound = 4
INVARIANT Counted
INVARIANT AllEnd
CHECK_DEADLOCK FALSE
