SPECIFICATION Spec
CONSTANTS
  MaxN = 300
  WideMin = 128
  Wide = 64
  NarrowMin = 33
  Narrow = 32
  RoundUp = FALSE
  SkipTail = FALSE
INVARIANTS EveryElementOnce NothingOutside
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
