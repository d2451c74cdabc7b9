SPECIFICATION Spec
CONSTANTS
  Depth = 24
  Apis = {"split", "splitp", "generic", "old", "rand", "ssms", "ssmsrand", "wshamir", "wssms"}
  Sizes <- SizesMix
  Lens = {1, 2, 7, 16, 33}
  Seeding = FALSE
  Overwrites = TRUE
  Reads = FALSE
  KeyedGens = FALSE
INVARIANTS Emit Referenced
CHECK_DEADLOCK FALSE
