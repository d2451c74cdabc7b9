SPECIFICATION Spec
CONSTANTS
  B = 5
  MaxN = 4
  NoRedraw = FALSE
  OffByOne = FALSE
  NoSelf = TRUE
  TopOnly = FALSE
INVARIANTS NoCrash IsPermutation AlwaysPermutation AllDifferent EveryArrangement
PROPERTIES Returns
CHECK_DEADLOCK FALSE
