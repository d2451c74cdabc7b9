SPECIFICATION Spec
CONSTANTS
  Sizes = {1}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 6
  Blocking = TRUE
  TwoSteps = FALSE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS NeverWaits

CHECK_DEADLOCK FALSE
