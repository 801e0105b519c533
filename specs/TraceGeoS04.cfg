INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Focus = {"signed"}
