SPECIFICATION Spec
CONSTANTS
  Depth = 24
  Apis = {"wshamir", "wssms", "rand", "ssms"}
  Sizes <- SizesMix
  Lens = {1, 7, 8, 16, 33}
  Seeding = FALSE
  Overwrites = FALSE
  Reads = FALSE
  KeyedGens = FALSE
INVARIANTS Emit Referenced
CHECK_DEADLOCK FALSE
