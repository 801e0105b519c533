SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6, 7}
  Keys = {1, 2, 3}
  Highs = {3}
INVARIANTS Order Links Balance Maxima
CHECK_DEADLOCK FALSE
