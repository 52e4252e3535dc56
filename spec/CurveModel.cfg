INIT Init
NEXT Next
CONSTANTS
  Design = "code"
  Tol = 20
  Kl = 2
INVARIANT Within
INVARIANT EndsThere
CHECK_DEADLOCK FALSE
