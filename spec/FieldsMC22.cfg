SPECIFICATION Spec
CONSTANTS Sd = 22 Draws = {1, 2}
INVARIANTS Hermitian Coloured
CHECK_DEADLOCK FALSE
