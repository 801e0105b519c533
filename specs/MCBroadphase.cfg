SPECIFICATION BSpec
CONSTANTS
  Obj <- MCObj
  Boxes <- MCBoxes
INVARIANTS BTypeOK KnownIsTruth RespSane OverlapIsZeroDist PruneSound
CHECK_DEADLOCK FALSE
