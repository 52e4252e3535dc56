INIT Init
NEXT Next
CONSTANTS Design = "code"
  Longest = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
