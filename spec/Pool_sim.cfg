SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4, 8}
  Threads = {1, 2, 3}
  MaxMade = 100
  Calls = 80
  Blocking = FALSE
  TwoSteps = FALSE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = FALSE
  Recording = TRUE
INVARIANTS Emit Exclusive Bounded NeverNil NeverWaits

CHECK_DEADLOCK FALSE
