SPECIFICATION Spec
CONSTANTS
  FieldBits = 3
  FieldPoly = 11
  N = 4
  K = 2
  Secrets <- SecretsB
  Splits = 1
  KeyReuse = FALSE
  KeyIsTag = FALSE
  NoCipher = FALSE
  BadParity = TRUE
  NoLength = FALSE
  LowDegree = FALSE
INVARIANTS AnyQuorumDecodes ShareFormat KeyHidden KeyAnywhere FreshKeys PayloadIsNotPlaintext
CHECK_DEADLOCK FALSE
