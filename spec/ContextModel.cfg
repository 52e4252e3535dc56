INIT Init
NEXT Next
CONSTANTS
  Design = "code"
  Fonts = {1, 2}
  Sizes = {48, 50}
  Dpis = {72, 80}
  Hints = {0, 2}
  Glyphs = {0, 1, 2}
  Places = 2
  Fracs = {0, 1, 2}
  PerCol = 2
  Fails <- FailSet
  Len0 = 6
INVARIANT Right
VIEW View
CHECK_DEADLOCK FALSE
