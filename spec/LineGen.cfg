INIT Init
NEXT Next
CONSTANTS Step = 15
INVARIANT Emit
CHECK_DEADLOCK FALSE
