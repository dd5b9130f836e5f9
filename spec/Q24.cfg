CONSTANTS
  BasisSeq <- BasesX
  Cls = "UDD"
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_S Inv_Twin Inv_Var Inv_Udd Inv_Order
