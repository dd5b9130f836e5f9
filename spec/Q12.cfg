CONSTANTS
  ModelSeq <- ModelsX
  NoQuery = NoQuery
INIT LifeInit
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Total Inv_Survival Inv_Percentile Inv_Monotone Inv_Twin
