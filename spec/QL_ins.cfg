CONSTANTS
  BasisSeq <- BasesX
  NoQuery = NoQuery
  Kind = "ins"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Survival Inv_Insurance Inv_Jensen Inv_Annuity Inv_Twin Inv_IncTwin Inv_Chain Inv_Split
