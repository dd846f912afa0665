SPECIFICATION Spec
CONSTANTS N1 = 2
N2 = 3
M1 = 2
M2 = 3
Vals = {0, 1}
Kers = {0, 1}
INVARIANTS Conserves Constants DeltaKeeps Commutes Periodic Cuts
CHECK_DEADLOCK FALSE
