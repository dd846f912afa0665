SPECIFICATION Spec
CONSTANT Sh <- ShapeB
NW = 3
Barrier = TRUE
INVARIANT ScheduleFree
INVARIANT Torus
CHECK_DEADLOCK FALSE
