SPECIFICATION Spec
CONSTANTS
  Kind = "split"
  MaxLen = 0
  Numbers <- Numbers_split_t
  Lengths <- Lengths_split_t
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
