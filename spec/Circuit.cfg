INIT Init
NEXT Next
INVARIANTS SamePlace OnePixel Documented Through Starts OnePose
CHECK_DEADLOCK FALSE
