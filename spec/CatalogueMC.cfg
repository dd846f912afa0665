SPECIFICATION Spec
CONSTANTS MaxLines = 2
Masses = {0, 1, 2, 3}
Coords = {0, 1, 3}
N = 2
INVARIANTS ReadsChosen Conserved Final Periodic
PROPERTY Growing
CHECK_DEADLOCK FALSE
