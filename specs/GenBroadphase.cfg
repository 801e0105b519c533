INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Obj = {}
  Boxes = {}
  Len0 = 30
  Cap = 8
  DistQ = FALSE
