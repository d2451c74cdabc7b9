SPECIFICATION Spec
CONSTANTS
  Kind = "split"
  MaxLen = 0
  Numbers <- Numbers_split_q
  Lengths <- Lengths_split_q
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
