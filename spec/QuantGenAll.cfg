INIT Init
NEXT Next
CONSTANTS
  All = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
