INIT Init
NEXT Next
CONSTANTS Design = "code"
  Longest = 5
  Seeds = {0}
INVARIANTS Laid
CHECK_DEADLOCK FALSE
