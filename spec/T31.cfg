INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Known Inv_Alias Inv_Rate
