CONSTANTS
  NMax = 7
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Dist Inv_Binomial Inv_Total Inv_Wider Inv_Cov
