SPECIFICATION Spec
CONSTANTS
  Parts = 3
  MaxCalls = 6
  SpareCap = FALSE
  AliasSecret = FALSE
  Pooled = FALSE
  InPlace = FALSE
INVARIANTS Isolated Apart
CHECK_DEADLOCK FALSE
