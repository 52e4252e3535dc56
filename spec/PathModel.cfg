INIT Init
NEXT Next
CONSTANTS Design = "code"
  Longest = 5
INVARIANTS Forward Backward
CHECK_DEADLOCK FALSE
