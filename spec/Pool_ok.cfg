SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 8
  Blocking = FALSE
  TwoSteps = FALSE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS Exclusive Bounded NeverNil NeverWaits
PROPERTY Refines
CHECK_DEADLOCK FALSE
