SPECIFICATION Spec
CONSTANT Shape <- Shape33
Fifo = TRUE
INVARIANT Labelled
INVARIANT SizesSoFar
INVARIANT Final
CHECK_DEADLOCK FALSE
