CONSTANTS
  NoQuery = NoQuery
  Depth = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_FirstYear Inv_Renewed
