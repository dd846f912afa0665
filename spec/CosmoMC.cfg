SPECIFICATION Spec
CONSTANTS OmV = {27, 100, 31}
Cells = {20, 55}
MaxLen = 8
INVARIANTS Increasing Inside OneStep Inverse Consistent SubFits
CHECK_DEADLOCK FALSE
