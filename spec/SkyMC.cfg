SPECIFICATION Spec
CONSTANTS N = 2  MaxN = 5  Vals = {0, 1, 5}  Steps = 2
INVARIANTS Bounded Alike Identity Restores Periodic AsConv
CHECK_DEADLOCK FALSE
