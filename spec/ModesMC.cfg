SPECIFICATION Spec
INVARIANTS PowerStays Parseval PointSymmetric Geometry
CONSTANTS Shape <- Shape24
Values = {0, 1}
NB = 3
CHECK_DEADLOCK FALSE
