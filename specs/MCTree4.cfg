SPECIFICATION Spec
CONSTANTS
  Leaves = {1, 2, 3, 4}
  Top = 1
INVARIANTS Whole Links Exact
CHECK_DEADLOCK FALSE
