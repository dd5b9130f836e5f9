CONSTANTS
  BasisSeq <- BasesX
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Close Inv_One Inv_Split
