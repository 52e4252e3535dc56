INIT Init
NEXT Next
CONSTANTS Design = "code"
  Far = 70
INVARIANTS Multiple Nearest Exact Moves Stays Split Numbered Apart
CHECK_DEADLOCK FALSE
