CONSTANTS
  ModelSeq <- ModelsX
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Total Inv_Survival Inv_Frac Inv_Deferred
