SPECIFICATION Spec
CONSTANT Shape <- Shape23
Fifo = FALSE
INVARIANT Labelled
INVARIANT SizesSoFar
INVARIANT Final
CHECK_DEADLOCK FALSE
PROPERTY Terminates
