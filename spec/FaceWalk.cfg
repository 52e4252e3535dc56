INIT InitWalk
NEXT Walk
CONSTANTS
  Design = "code"
  Chars = {65, 66, 67, 68, 69, 70, 321, 322, 323, 577, 0, 1114111}
  Entries = {1, 2, 4, 16, 0}
  Subs = {0, 1, 2, 4, 8, 64}
  NGlyphs = 6
  IndexPlaces = 256
  Len0 = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
