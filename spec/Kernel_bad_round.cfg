SPECIFICATION Spec
CONSTANTS
  MaxN = 300
  WideMin = 128
  Wide = 64
  NarrowMin = 33
  Narrow = 32
  RoundUp = TRUE
  SkipTail = FALSE
INVARIANTS EveryElementOnce NothingOutside

CHECK_DEADLOCK FALSE
