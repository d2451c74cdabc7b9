SPECIFICATION Spec
CONSTANTS FieldBits = 2 FieldPoly = 7 N = 3 K = 2 SecretLen = 2 NewShares = 0
  TagSet = {1, 2, 3} DupTags = FALSE TopCoefs = {0, 1, 2, 3} SharedCoefs = FALSE
INVARIANTS Exact AnyQuorumReconstructs PerfectSecrecy CoefficientsRecovered RegeneratedValid
CHECK_DEADLOCK FALSE
