CONSTANTS
  PolSeq <- PolsX
  MaxYears = 9
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Sv Inv_Retro Inv_Equivalence Inv_Matures Inv_Mean Inv_Hattendorff Inv_Linear Inv_TwinC Inv_Falling Inv_LossMean
