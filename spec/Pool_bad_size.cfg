SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 8
  Blocking = FALSE
  TwoSteps = FALSE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = TRUE
  Recording = FALSE
INVARIANTS Bounded

CHECK_DEADLOCK FALSE
