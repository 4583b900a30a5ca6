INIT Init
NEXT Next
INVARIANTS SameSolution Least Flat Agrees Meets
CHECK_DEADLOCK FALSE
