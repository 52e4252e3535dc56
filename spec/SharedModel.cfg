INIT Init
NEXT Next
CONSTANTS
  Users = {1, 2, 3}
  Ops = {0, 1, 2}
  Len0 = 2
  Place = "own"
INVARIANTS Immutable AsAlone NoRace
CHECK_DEADLOCK FALSE
