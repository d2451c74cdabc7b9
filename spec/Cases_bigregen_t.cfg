SPECIFICATION Spec
CONSTANTS
  Kind = "bigregen"
  MaxLen = 0
  Numbers = {0, 1, 2, 3, 54, 55, 56, 57}
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant BigVerdicts Emit
CHECK_DEADLOCK FALSE
