SPECIFICATION Spec
CONSTANTS Nx = 3 Ny = 3 Nz = 3 Cells = 4
INVARIANTS Removes AtOnce Origin Left Shares Mirror
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
