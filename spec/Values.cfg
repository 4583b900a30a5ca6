INIT Init
NEXT Next
INVARIANTS Unchanged_ RowByRow Function_
CHECK_DEADLOCK FALSE
