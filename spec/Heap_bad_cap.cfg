SPECIFICATION Spec
CONSTANTS
  Parts = 2
  MaxCalls = 3
  SpareCap = TRUE
  AliasSecret = FALSE
  Pooled = FALSE
  InPlace = FALSE
INVARIANTS Isolated 
CHECK_DEADLOCK FALSE
