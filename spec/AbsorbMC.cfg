SPECIFICATION Spec
CONSTANTS
  N = 5
  Depths = {1, 7}
  Ws = {1, 2, 3, 5}
  Temps = {1, 300, 10000}
INVARIANTS
  Between
  Jensen
  Conserved
  Whole
  Centred
  Even
  Peak
  Strength
  Same
CHECK_DEADLOCK FALSE
