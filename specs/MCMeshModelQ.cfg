INIT Init
NEXT Next
VIEW ModelView
INVARIANTS Inv Restart
PROPERTY Refusal
CHECK_DEADLOCK FALSE
CONSTANTS
  Points = {1, 2}
  MaxV = 4
  MaxT = 2
  Gen = FALSE
