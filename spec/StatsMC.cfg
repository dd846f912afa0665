SPECIFICATION Spec
CONSTANTS N = 4  Labels = {1, 2, 3}  Steps = 2
INVARIANT Pooled
INVARIANT Associative
INVARIANT Labelled
INVARIANT Flat
INVARIANT Shapes
CHECK_DEADLOCK FALSE
