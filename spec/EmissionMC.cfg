SPECIFICATION Spec
CONSTANTS
  N = 3
  NH = 4
  Zs = {1, 3, 7}
INVARIANTS
  NothingLost
  OrderFree
  SameSource
  Story
  Grows
  Halves
CHECK_DEADLOCK FALSE
