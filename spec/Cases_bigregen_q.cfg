SPECIFICATION Spec
CONSTANTS
  Kind = "bigregen"
  MaxLen = 0
  Numbers = {0, 1, 3}
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant BigVerdicts Emit
CHECK_DEADLOCK FALSE
