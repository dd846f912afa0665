SPECIFICATION Spec
CONSTANTS Sh = 5 Vals = {0, 1, 3} Width = 2 Places = 4
INVARIANTS RealSpace Symmetries Pairs
CHECK_DEADLOCK FALSE
