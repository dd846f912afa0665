SPECIFICATION Spec
CONSTANTS Sd = 3 Draws = {1, 2, 5}
INVARIANTS Hermitian Coloured
CHECK_DEADLOCK FALSE
