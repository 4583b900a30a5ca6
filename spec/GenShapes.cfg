INIT Init
NEXT Next
CONSTANTS
  Mode = "shapes"
  Depth = 12
INVARIANT Emit
INVARIANT Closed
CHECK_DEADLOCK FALSE
