INIT Init
NEXT Next
CONSTANTS Step = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
