SPECIFICATION GenSpec
CONSTANTS HV = {674, 700, 500, 1000, 1500}
MV = {100, 240, 270, 315, 1000, 1200}
LV = {0, 650, 730, 760}
BV = {0, 44, 49, 100}
YV = {0, 1, 240, 300, 900}
Boxes = {37, 47, 64, 114, 200, 244, 425, 500, 100, 48}
GenLen = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
