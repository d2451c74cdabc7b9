SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 6
  Blocking = FALSE
  TwoSteps = TRUE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS Exclusive

CHECK_DEADLOCK FALSE
