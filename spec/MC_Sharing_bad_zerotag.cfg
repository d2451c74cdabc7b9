SPECIFICATION Spec
CONSTANTS
  FieldBits = 2
  FieldPoly = 7
  N = 3
  K = 2
  SecretLen = 1
  NewShares = 0
  TagSet = {0, 1, 2, 3}
  DupTags = FALSE
  TopCoefs = {0, 1, 2, 3}
  SharedCoefs = FALSE
  Secrets = {0, 1, 2, 3}
  StaleTags = FALSE
INVARIANTS Exact AnyQuorumReconstructs PerfectSecrecy CoefficientsRecovered RegeneratedValid
PROPERTIES SpecSplits SpecRegenerates
CHECK_DEADLOCK FALSE
