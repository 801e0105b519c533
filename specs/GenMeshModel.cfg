INIT Init
NEXT Next
VIEW ModelView
INVARIANTS Inv Restart
CHECK_DEADLOCK FALSE
CONSTANTS
  Points = {1}
  MaxV = 7
  MaxT = 2
  Gen = TRUE
