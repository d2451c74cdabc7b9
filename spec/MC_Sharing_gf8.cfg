SPECIFICATION Spec
CONSTANTS FieldBits = 3 FieldPoly = 11 N = 3 K = 2 SecretLen = 1 NewShares = 2
  TagSet = {1, 2, 3, 4, 5, 6, 7} DupTags = FALSE TopCoefs = {0, 1, 2, 3, 4, 5, 6, 7} SharedCoefs = FALSE
INVARIANTS Exact AnyQuorumReconstructs PerfectSecrecy CoefficientsRecovered RegeneratedValid
CHECK_DEADLOCK FALSE
