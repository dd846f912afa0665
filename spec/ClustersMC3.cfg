SPECIFICATION Spec
CONSTANT Shape <- Shape222
Fifo = FALSE
INVARIANT Labelled
INVARIANT SizesSoFar
INVARIANT Final
CHECK_DEADLOCK FALSE
