SPECIFICATION Spec
CONSTANTS
  FieldBits = 2
  FieldPoly = 7
  N = 3
  K = 2
  Secrets <- SecretsC
  Splits = 1
  KeyReuse = FALSE
  KeyIsTag = FALSE
  NoCipher = FALSE
  BadParity = FALSE
  NoLength = FALSE
  LowDegree = FALSE
INVARIANTS AnyQuorumDecodes ShareFormat KeyHidden KeyAnywhere FreshKeys PayloadIsNotPlaintext
CHECK_DEADLOCK FALSE
