SPECIFICATION Spec
CONSTANTS
  Depth = 24
  Apis = {"split", "splitp", "generic", "old", "rand", "ssms", "ssmsrand", "wshamir", "wssms"}
  Sizes <- SizesMix
  Lens = {8, 9, 16, 33}
  Seeding = TRUE
  Overwrites = FALSE
  Reads = TRUE
  KeyedGens = FALSE
INVARIANTS Emit Referenced
CHECK_DEADLOCK FALSE
