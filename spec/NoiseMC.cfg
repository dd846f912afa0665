SPECIFICATION Spec
CONSTANTS N = 3 Nights = 3 Hours = {1, 4} Counts = {0, 1, 3}
INVARIANTS Combined StepFree Even2 Natural
CHECK_DEADLOCK FALSE
