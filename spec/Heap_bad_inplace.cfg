SPECIFICATION Spec
CONSTANTS
  Parts = 2
  MaxCalls = 3
  SpareCap = FALSE
  AliasSecret = FALSE
  Pooled = FALSE
  InPlace = TRUE
INVARIANTS Isolated 
CHECK_DEADLOCK FALSE
