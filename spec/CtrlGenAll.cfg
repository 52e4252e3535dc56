INIT Init
NEXT Next
CONSTANTS Long <- All
INVARIANT Emit
CHECK_DEADLOCK FALSE
