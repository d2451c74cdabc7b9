SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Splits = 2
  Shares = 3
  PoolSize = 4
  EarlyPut = FALSE
  DoublePut = FALSE
  PeekGet = FALSE
  Recording = TRUE
INVARIANTS Emit Exclusive Untouched
CHECK_DEADLOCK FALSE
