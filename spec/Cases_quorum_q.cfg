SPECIFICATION Spec
CONSTANTS
  Kind = "quorum"
  MaxLen = 3
  Numbers <- QuorumNumbers_q
  Lengths = {0}
INVARIANTS Defined OrderIrrelevant GenuineAccepted NilIrrelevant Emit
CHECK_DEADLOCK FALSE
