SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Splits = 2
  Shares = 3
  PoolSize = 2
  EarlyPut = FALSE
  DoublePut = FALSE
  PeekGet = FALSE
  Recording = FALSE
INVARIANTS Exclusive Bounded Untouched
CHECK_DEADLOCK FALSE
