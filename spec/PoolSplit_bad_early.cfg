SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Splits = 1
  Shares = 2
  PoolSize = 2
  EarlyPut = TRUE
  DoublePut = FALSE
  PeekGet = FALSE
  Recording = FALSE
INVARIANTS Untouched
CHECK_DEADLOCK FALSE
