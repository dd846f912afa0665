SPECIFICATION Spec
CONSTANTS N = 3  MaxN = 4  Vals = {0, 1}  Steps = 1
INVARIANTS Bounded Alike Identity Restores Periodic AsConv
CHECK_DEADLOCK FALSE
