SPECIFICATION Spec
CONSTANTS
  Parts = 2
  MaxCalls = 3
  SpareCap = FALSE
  AliasSecret = FALSE
  Pooled = TRUE
  InPlace = FALSE
INVARIANTS Isolated 
CHECK_DEADLOCK FALSE
