CONSTANTS
  BasisSeq <- BasesX
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Survival Inv_Insurance Inv_Annuity Inv_Twin Inv_Fund
