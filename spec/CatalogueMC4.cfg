SPECIFICATION Spec
CONSTANTS MaxLines = 4
Masses = {0, 1, 2}
Coords = {1}
N = 2
INVARIANTS ReadsChosen Conserved Final Periodic
PROPERTY Growing
CHECK_DEADLOCK FALSE
