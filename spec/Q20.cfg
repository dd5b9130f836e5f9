CONSTANTS
  NoQuery = NoQuery
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Rules Inv_Life Inv_Facts
