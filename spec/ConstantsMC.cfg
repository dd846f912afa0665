SPECIFICATION Spec
CONSTANTS HV = {674, 700}
MV = {270, 315}
LV = {650, 730}
BV = {44, 49}
YV = {240}
Boxes = {37, 244, 100}
GenLen = 0
INVARIANTS StoredIsCurrent MatterIsFraction BoxConsistent InverseConversions
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
