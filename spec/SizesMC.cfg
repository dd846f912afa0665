SPECIFICATION Spec
CONSTANTS Nx = 1 Ny = 3 Nz = 4 Cells = 12
INVARIANTS Removes AtOnce Origin Left Shares Mirror
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
