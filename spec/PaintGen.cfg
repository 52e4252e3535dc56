INIT Init
NEXT Next
CONSTANTS Step = 1021
INVARIANT Emit
CHECK_DEADLOCK FALSE
