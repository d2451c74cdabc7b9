SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Splits = 2
  Shares = 2
  PoolSize = 2
  EarlyPut = FALSE
  DoublePut = FALSE
  PeekGet = FALSE
  Recording = FALSE
INVARIANTS Exclusive Bounded Untouched
PROPERTY Finishes
CHECK_DEADLOCK FALSE
