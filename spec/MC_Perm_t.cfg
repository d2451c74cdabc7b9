SPECIFICATION Spec
CONSTANTS
  B = 6
  MaxN = 5
  NoRedraw = FALSE
  OffByOne = FALSE
  NoSelf = FALSE
  TopOnly = FALSE
INVARIANTS NoCrash IsPermutation AlwaysPermutation AllDifferent EveryArrangement
PROPERTIES Returns
CHECK_DEADLOCK FALSE
