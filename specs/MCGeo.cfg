INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Offsets = {0, 1, 3}
INVARIANTS SupportOK SupportMax Outside GapSym DecideOK GapBound
