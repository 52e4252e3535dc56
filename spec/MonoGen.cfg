CONSTANTS
  Design = "code"
 W = 5
 Rows = {0, 1, 3}
 MaxBatches = 6
 Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Correct Reset Emit
CHECK_DEADLOCK FALSE
