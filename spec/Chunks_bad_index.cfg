SPECIFICATION Spec
CONSTANTS
  Lens = {3, 4}
  Chunk = 2
  Shares = 2
  SharedIndex = TRUE
  EarlyDone = FALSE
  AddInside = FALSE
  FloorChunks = FALSE
INVARIANTS Complete Exactly Disjoint
PROPERTY Returns
CHECK_DEADLOCK FALSE
