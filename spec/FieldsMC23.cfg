SPECIFICATION Spec
CONSTANTS Sd = 23 Draws = {1, 2}
INVARIANTS Hermitian Coloured
CHECK_DEADLOCK FALSE
