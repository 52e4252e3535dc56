INIT Init
NEXT Next
CONSTANTS Step = 97
INVARIANT Emit
CHECK_DEADLOCK FALSE
