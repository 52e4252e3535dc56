INIT Init
NEXT Next
CONSTANTS Deep = FALSE
  What = {"cmap"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
