INIT Init
NEXT Next
CONSTANTS Design = "code"
  B = 3
  Every = 5
INVARIANTS Fits Valid Ends Law Grows
CHECK_DEADLOCK FALSE
