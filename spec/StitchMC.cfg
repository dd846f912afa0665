SPECIFICATION Spec
CONSTANTS N = 4  Labels = {1, 2, 5}  Vals = {0, 1, 7}  Steps = 1
INVARIANT AllBinned
INVARIANT Between
INVARIANT Splits
INVARIANT TwoGroups
INVARIANT Nested
INVARIANT Renamed
CHECK_DEADLOCK FALSE
