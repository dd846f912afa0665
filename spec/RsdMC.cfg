SPECIFICATION Spec
CONSTANTS NC = 4  NP = 2  MaxD = 37  Steps = 1  Vals = {0, 1, 3}
INVARIANTS Conserved OnlyLost Still Rolls Turned
CHECK_DEADLOCK FALSE
