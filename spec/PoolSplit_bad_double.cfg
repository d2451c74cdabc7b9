SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Splits = 2
  Shares = 1
  PoolSize = 2
  EarlyPut = FALSE
  DoublePut = TRUE
  PeekGet = FALSE
  Recording = FALSE
INVARIANTS Exclusive
CHECK_DEADLOCK FALSE
