INIT Init
NEXT Next
CONSTANTS
  MaxFaults = 1
  Bases = {0}
  Step = "all"
INVARIANT Emit
CHECK_DEADLOCK FALSE
