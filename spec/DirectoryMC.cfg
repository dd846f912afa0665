SPECIFICATION Spec
CONSTANTS Zs = {1, 2, 3, 4}
Ask = 3
INVARIANTS Neighbours Windows Bracket OrderFree
CHECK_DEADLOCK FALSE
