CONSTANTS Max = 1
Rand = 1500
INIT Init
NEXT Next
INVARIANTS Agree Symmetric Exclusive Bound
CHECK_DEADLOCK FALSE
