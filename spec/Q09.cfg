CONSTANTS
  BasisSeq <- BasesX
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Survival Inv_Insurance Inv_Moment2 Inv_Jensen Inv_Annuity Inv_Twin Inv_IncTwin Inv_Certain Inv_VarTwin Inv_Chain
