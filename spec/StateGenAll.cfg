INIT Init
NEXT Next
CONSTANTS Every = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
