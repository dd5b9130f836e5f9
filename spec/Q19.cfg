CONSTANTS
  PolSeq <- PolsX
  MaxYears = 12
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Sv Inv_Retro Inv_Equivalence Inv_Matures  Inv_Interim Inv_FPT Inv_FundF
