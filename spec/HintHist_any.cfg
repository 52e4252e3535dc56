INIT Init
NEXT Walk
CONSTANTS
  Design = "code"
  Fonts = {1, 2, 3}
  Scales = {1, 2, 3}
  Glyphs = {0, 1, 2, 3, 4, 5}
  Len0 = 12
  Kind = "any"
  Broken = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
