SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  Keys = {1, 2}
  Highs = {2, 3}
INVARIANTS Order Links Balance Maxima
CHECK_DEADLOCK FALSE
