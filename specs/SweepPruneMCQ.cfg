SPECIFICATION Spec
CONSTANTS
  Obj = {1, 2, 3}
  Axes = {1, 2}
  Max <- MCMaxQ
INVARIANTS Sorted TiesOrdered ListsExact PairsExact
CHECK_DEADLOCK FALSE
