SPECIFICATION Spec
CONSTANTS
  Kind = "regen"
  MaxLen = 3
  Numbers <- Numbers_regen_t
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
