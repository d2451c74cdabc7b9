SPECIFICATION Spec
CONSTANTS
  Kind = "bigssms"
  MaxLen = 0
  Numbers = {0}
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant BigVerdicts Emit
CHECK_DEADLOCK FALSE
