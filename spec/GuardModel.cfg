INIT Init
NEXT Next
CONSTANTS Design = "code"
  N = 36
  K = 3
INVARIANT Inside
CHECK_DEADLOCK FALSE
