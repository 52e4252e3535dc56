INIT Init
NEXT Next
CONSTANTS
  Design = "code"
  Wd = 2
  Ht = 2
  Buf = 3
  Kinds <- FewKinds
INVARIANTS NoOverflow WellFormed Exact
CHECK_DEADLOCK FALSE
