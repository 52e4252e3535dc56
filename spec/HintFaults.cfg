INIT Init
NEXT Next
CONSTANTS
  Contexts = {"glyph", "full", "twilight", "prep", "fpgm"}
  Ops <- AllOps
  Deep = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
