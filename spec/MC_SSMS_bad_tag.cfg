SPECIFICATION Spec
CONSTANTS
  FieldBits = 2
  FieldPoly = 7
  N = 2
  K = 2
  Secrets <- SecretsB
  Splits = 1
  KeyReuse = FALSE
  KeyIsTag = TRUE
  NoCipher = FALSE
  BadParity = FALSE
  NoLength = FALSE
  LowDegree = FALSE
INVARIANTS AnyQuorumDecodes ShareFormat KeyHidden KeyAnywhere FreshKeys PayloadIsNotPlaintext
CHECK_DEADLOCK FALSE
