INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Offsets = {1}
INVARIANTS SupportOK SupportMax Outside GapSym DecideOK GapBound
