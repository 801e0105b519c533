INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Obj = {}
  Boxes = {}
