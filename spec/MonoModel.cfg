CONSTANTS
  Design = "code"
 W = 3
 Rows = {0, 1}
 MaxBatches = 3
 Gen = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Correct Reset
CHECK_DEADLOCK FALSE
