SPECIFICATION Spec
CONSTANTS
  FieldBits = 3
  FieldPoly = 11
  N = 2
  K = 2
  SecretLen = 1
  NewShares = 1
  TagSet = {1, 2, 3, 4, 5, 6, 7}
  DupTags = FALSE
  TopCoefs = {0, 1, 2, 3, 4, 5, 6, 7}
  SharedCoefs = FALSE
  Secrets = {0, 1}
  StaleTags = TRUE
INVARIANTS Exact AnyQuorumReconstructs PerfectSecrecy CoefficientsRecovered RegeneratedValid
PROPERTIES SpecSplits SpecRegenerates
CHECK_DEADLOCK FALSE
