SPECIFICATION Spec
CONSTANTS Design = "code"
  Depth = 3
  Budget = 4
INVARIANTS Bounded Shallow Assembled
PROPERTY Ends
CHECK_DEADLOCK FALSE
