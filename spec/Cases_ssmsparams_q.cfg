SPECIFICATION Spec
CONSTANTS
  Kind = "ssmsparams"
  MaxLen = 0
  Numbers <- Numbers_ssmsparams_q
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
