CONSTANTS
  Indices <- Idx
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Sound Inv_Grow Inv_Fix Inv_End
