INIT Init
NEXT Free
CONSTANTS
  Mode = "free"
  Depth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
