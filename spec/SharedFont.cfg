INIT Init
NEXT Next
CONSTANTS
  Users = {1, 2}
  Ops = {0, 1, 2}
  Len0 = 2
  Place = "font"
INVARIANTS Immutable AsAlone
CHECK_DEADLOCK FALSE
