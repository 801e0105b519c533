CONSTANTS Max = 2
Rand = 3000
INIT Init
NEXT Next
INVARIANTS Agree Symmetric Exclusive Bound
CHECK_DEADLOCK FALSE
