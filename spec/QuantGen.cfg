INIT Init
NEXT Next
CONSTANTS
  All = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
