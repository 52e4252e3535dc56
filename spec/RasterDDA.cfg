INIT Init
NEXT Next
CONSTANTS Design = "code"
  Units = 4 Cols = 2 Rows = 2 Margin = 2
INVARIANT Refines
INVARIANT CrossingExact
INVARIANT Near
CHECK_DEADLOCK FALSE
