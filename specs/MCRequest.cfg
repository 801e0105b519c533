SPECIFICATION Spec
CONSTANTS
  Pairs = {1, 2, 3, 4}
  Limits = {0, 1, 2, 5}
  NC = 2
  Calls = 3
INVARIANTS Largest Reported Thorough
PROPERTY Grows
CHECK_DEADLOCK FALSE
