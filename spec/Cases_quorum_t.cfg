SPECIFICATION Spec
CONSTANTS
  Kind = "quorum"
  MaxLen = 5
  Numbers <- QuorumNumbers_t
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
