INIT Init
NEXT Next
CONSTANTS Design = "code"
  Top = 7
  MaxRanges = 5
INVARIANTS InRange Found Kept Ends
CHECK_DEADLOCK FALSE
