SPECIFICATION Spec
CONSTANTS
  Kind = "regen"
  MaxLen = 2
  Numbers <- Numbers_regen_q
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
