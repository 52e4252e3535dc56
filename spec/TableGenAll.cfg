INIT Init
NEXT Next
CONSTANTS Deep = TRUE
  What = {"cmap"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
