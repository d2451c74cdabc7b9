SPECIFICATION Spec
CONSTANTS
  Kind = "ssms"
  MaxLen = 3
  Numbers = {0}
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
