INIT Init
NEXT Next
CONSTANTS Long <- Few
INVARIANT Emit
CHECK_DEADLOCK FALSE
