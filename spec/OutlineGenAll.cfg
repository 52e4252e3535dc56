INIT Init
NEXT Next
CONSTANTS Deep = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
