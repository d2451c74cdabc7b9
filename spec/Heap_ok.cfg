SPECIFICATION Spec
CONSTANTS
  Parts = 2
  MaxCalls = 5
  SpareCap = FALSE
  AliasSecret = FALSE
  Pooled = FALSE
  InPlace = FALSE
INVARIANTS Isolated Apart
CHECK_DEADLOCK FALSE
