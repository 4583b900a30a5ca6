INIT Init
NEXT Next
INVARIANTS Projects_ Found Slope SlopeOfMatrix Views
CHECK_DEADLOCK FALSE
