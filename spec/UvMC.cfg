SPECIFICATION Spec
CONSTANTS N = 4 NA = 3 Span = 2 Turns = 3
INVARIANTS Symmetric OrderFree ShiftFree AddsUp Exact
CHECK_DEADLOCK FALSE
