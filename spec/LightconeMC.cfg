SPECIFICATION Spec
CONSTANTS CubeZ = {2, 4, 6, 8, 10}
SliceZ = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
MaxCubes = 4
INVARIANTS HeldIsBracket Encloses OnCube Between ReadOnce
CHECK_DEADLOCK FALSE
