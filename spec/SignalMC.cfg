SPECIFICATION Spec
CONSTANTS XS = {0, 1, 2}
RS = {0, 2}
TS = {3, 30000}
MaxLen = 3
INVARIANT Grows
INVARIANT Neutral
INVARIANT NoSignal
INVARIANT Linear
INVARIANT HotLimit
PROPERTY History
CHECK_DEADLOCK FALSE
