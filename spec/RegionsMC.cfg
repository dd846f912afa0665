SPECIFICATION Spec
CONSTANTS Sh <- Sh43  R2 = 1  Balls = 4  NV = 5
INVARIANTS Union Disjoint Centres SameBalls Separated RestIsNearest Mirrored
CHECK_DEADLOCK FALSE
