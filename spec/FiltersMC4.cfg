SPECIFICATION Spec
CONSTANTS Nd = 4 Values = {5} Steps = 1
INVARIANTS Commute Shrinks Idempotent
CHECK_DEADLOCK FALSE
