SPECIFICATION Spec
CONSTANTS NC = 3  NP = 3  MaxD = 37  Steps = 2  Vals = {0, 1}
INVARIANTS Conserved OnlyLost Still Rolls Turned
CHECK_DEADLOCK FALSE
