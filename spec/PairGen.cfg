INIT Init
NEXT Next
CONSTANTS Deep = FALSE
  What = {"kern"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
