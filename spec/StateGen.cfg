INIT Init
NEXT Next
CONSTANTS Every = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
