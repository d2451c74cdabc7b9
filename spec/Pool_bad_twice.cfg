SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 6
  Blocking = FALSE
  TwoSteps = FALSE
  NilGet = FALSE
  Twice = TRUE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS Exclusive

CHECK_DEADLOCK FALSE
