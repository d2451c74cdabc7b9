SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 6
  Blocking = FALSE
  TwoSteps = FALSE
  NilGet = TRUE
  Twice = FALSE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS NeverNil

CHECK_DEADLOCK FALSE
