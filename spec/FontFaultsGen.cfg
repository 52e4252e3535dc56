INIT Init
NEXT Next
CONSTANTS
  MaxFaults = 2
  Bases = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 22}
  Step = "random"
INVARIANT Emit
CHECK_DEADLOCK FALSE
