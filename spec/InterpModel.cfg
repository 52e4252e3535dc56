SPECIFICATION Spec
CONSTANTS Design = "code"
  Steps = 12
  Depth = 2
INVARIANTS Bounded Shallow Means
PROPERTY Ends
CHECK_DEADLOCK FALSE
