INIT Init
NEXT Next
CONSTANTS Deep = TRUE
  What = {"kern"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
