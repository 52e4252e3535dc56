INIT Init
NEXT Next
CONSTANTS Deep = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
