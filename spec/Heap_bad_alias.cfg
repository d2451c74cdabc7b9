SPECIFICATION Spec
CONSTANTS
  Parts = 2
  MaxCalls = 3
  SpareCap = FALSE
  AliasSecret = TRUE
  Pooled = FALSE
  InPlace = FALSE
INVARIANTS Isolated 
CHECK_DEADLOCK FALSE
