INIT Init
NEXT Next
CONSTANTS Design = "code"
  Wide = 4
INVARIANTS Outside Inside
CHECK_DEADLOCK FALSE
