INIT Init
NEXT Walk
CONSTANTS
  Users = {1, 2, 3, 4}
  Ops = {0}
  Len0 = 1
  Place = "own"
INVARIANT Emit
CHECK_DEADLOCK FALSE
