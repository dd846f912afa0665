SPECIFICATION Spec
CONSTANTS N1 = 3
N2 = 2
M1 = 3
M2 = 2
Vals = {0, 2}
Kers = {0, 1}
INVARIANTS Conserves Constants DeltaKeeps Commutes Periodic Cuts
CHECK_DEADLOCK FALSE
