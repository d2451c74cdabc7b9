SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Threads = {1, 2}
  MaxMade = 4
  Calls = 6
  Blocking = FALSE
  TwoSteps = TRUE
  NilGet = FALSE
  Twice = FALSE
  Unbounded = FALSE
  Recording = FALSE
INVARIANTS NeverNil
PROPERTY Refines
CHECK_DEADLOCK FALSE
