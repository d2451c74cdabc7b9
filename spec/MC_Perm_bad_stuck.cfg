SPECIFICATION Spec
CONSTANTS
  B = 5
  MaxN = 4
  NoRedraw = FALSE
  OffByOne = FALSE
  NoSelf = FALSE
  TopOnly = TRUE
INVARIANTS NoCrash
PROPERTIES Returns
CHECK_DEADLOCK FALSE
