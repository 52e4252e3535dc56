INIT Init
NEXT Next
CONSTANTS
  Design = "code"
  Fonts = {1, 2, 3}
  Scales = {1, 2}
  Glyphs = {0}
  Len0 = 6
  Kind = "any"
  Broken <- BrokenSet
INVARIANT NoneBroken
PROPERTY Fresh
VIEW View
CHECK_DEADLOCK FALSE
