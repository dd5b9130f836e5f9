CONSTANTS
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Term Inv_Poly Inv_Add Inv_Mono
