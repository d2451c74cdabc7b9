SPECIFICATION Spec
CONSTANTS
  MaxGens = 2
  MaxSplits = 5
  Seeds = {1, 2}
  KeysFromProgram = TRUE
  CoefsFromProgram = FALSE
  OneKeyPerProcess = FALSE
  Rewind = FALSE
  CoefsOverlapKey = FALSE
INVARIANTS NeverReused Unpredictable PublicApart
CHECK_DEADLOCK FALSE
