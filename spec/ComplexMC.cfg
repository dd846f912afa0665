SPECIFICATION Spec
CONSTANT Sh <- ShapeA
NW = 2
Barrier = TRUE
INVARIANT ScheduleFree
INVARIANT Torus
CHECK_DEADLOCK FALSE
