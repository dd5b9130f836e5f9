INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Confluent Inv_Complete Inv_Identity
