INIT Init
NEXT Next
CONSTANT Len0 = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
