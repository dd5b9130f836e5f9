CONSTANTS
  BasisSeq <- BasesX
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Twin Inv_IncTwin Inv_Order Inv_Udd
