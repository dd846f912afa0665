SPECIFICATION Spec
INVARIANTS PowerStays Parseval PointSymmetric Geometry
CONSTANTS Shape <- Shape222
Values = {0, 1}
NB = 3
CHECK_DEADLOCK FALSE
