CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Boxes Rounds Stretch
CHECK_DEADLOCK FALSE
