SPECIFICATION Spec
CONSTANTS Sh <- Sh222  R2 = 2  Balls = 3  NV = 4
INVARIANTS Union Disjoint Centres SameBalls Separated RestIsNearest Mirrored
CHECK_DEADLOCK FALSE
