INIT Init
NEXT Walk
CONSTANTS
  Design = "code"
  Fonts = {1, 2}
  Sizes = {30, 44, 48, 57}
  Dpis = {72, 80}
  Hints = {0, 1, 2}
  Glyphs = {0}
  Places = 1
  Fracs = {0}
  PerCol = 1
  Fails = {}
  Len0 = 26
INVARIANT Emit
CHECK_DEADLOCK FALSE
