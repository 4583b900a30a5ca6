INIT Init
NEXT Next
VIEW Position
CONSTRAINT Report
CHECK_DEADLOCK FALSE
