INIT Init
NEXT Next
CONSTANTS Design = "code"
  Longest = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
