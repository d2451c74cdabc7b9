SPECIFICATION Spec
CONSTANTS
  Kind = "combine"
  MaxLen = 3
  Numbers = {0}
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
