SPECIFICATION Spec
CONSTANTS
  Depth = 24
  Apis = {"old", "rand", "ssmsrand"}
  Sizes <- SizesMix
  Lens = {1, 7, 16, 33}
  Seeding = FALSE
  Overwrites = FALSE
  Reads = TRUE
  KeyedGens = TRUE
INVARIANTS Emit Referenced
CHECK_DEADLOCK FALSE
