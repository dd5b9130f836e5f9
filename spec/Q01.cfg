CONSTANTS
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Fund Inv_Annuity Inv_Order Inv_Quote
