SPECIFICATION Spec
CONSTANTS
  FieldBits = 3
  FieldPoly = 11
  N = 2
  K = 2
  Secrets <- SecretsB
  Splits = 1
  KeyReuse = FALSE
  KeyIsTag = FALSE
  NoCipher = FALSE
  BadParity = FALSE
  NoLength = TRUE
  LowDegree = FALSE
INVARIANTS AnyQuorumDecodes ShareFormat KeyHidden KeyAnywhere FreshKeys PayloadIsNotPlaintext
CHECK_DEADLOCK FALSE
