SPECIFICATION Spec
CONSTANTS Nd = 3 Values = {0, 5} Steps = 3
INVARIANTS Commute Shrinks Idempotent
CHECK_DEADLOCK FALSE
