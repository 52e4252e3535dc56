INIT Init
NEXT Next
CONSTANTS Design = "code"
  Longest = 1
  Seeds = {1,2,3,4,5,6}
INVARIANT Emit
CHECK_DEADLOCK FALSE
