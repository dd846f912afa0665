SPECIFICATION Spec
CONSTANTS Sh = 33 Vals = {0, 1} Width = 2 Places = 1
INVARIANTS RealSpace Symmetries Pairs
CHECK_DEADLOCK FALSE
