INIT Init
NEXT Next
VIEW Position
INVARIANT Conforms
ALIAS Short
CHECK_DEADLOCK FALSE
