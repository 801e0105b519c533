SPECIFICATION Spec
CONSTANTS
  Leaves = {1, 2, 3}
  Top = 2
INVARIANTS Whole Links Exact
CHECK_DEADLOCK FALSE
