INIT Init
NEXT Next
CONSTANTS
  Contexts = {"glyph", "full", "twilight", "zp0", "zp1", "zp2", "diag", "loop", "refs", "compound", "super", "perp", "empty", "fpgm", "prep"}
  Ops <- AllOps
  Deep = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
