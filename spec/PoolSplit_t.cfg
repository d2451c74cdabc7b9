SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Splits = 1
  Shares = 2
  PoolSize = 2
  EarlyPut = FALSE
  DoublePut = FALSE
  PeekGet = FALSE
  Recording = FALSE
INVARIANTS Exclusive Bounded Untouched
CHECK_DEADLOCK FALSE
