CONSTANTS
  PolSeq <- PolsX
  MaxYears = 0
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Filled Inv_Inverse
