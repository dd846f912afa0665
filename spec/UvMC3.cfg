SPECIFICATION Spec
CONSTANTS N = 3 NA = 3 Span = 2 Turns = 4
INVARIANTS Symmetric OrderFree ShiftFree AddsUp Exact
CHECK_DEADLOCK FALSE
