INIT Init
NEXT Next
CONSTANTS
  Design = "code"
  Chars = {65, 66, 67, 321, 322, 323, 577}
  Entries = {1, 2, 4}
  Subs = {1, 2}
  NGlyphs = 3
  IndexPlaces = 256
  Len0 = 5
INVARIANTS Right Honest ByGlyph
VIEW View
CHECK_DEADLOCK FALSE
