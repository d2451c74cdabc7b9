SPECIFICATION Spec
CONSTANTS
  Lens = {3}
  Chunk = 2
  Shares = 2
  SharedIndex = FALSE
  EarlyDone = TRUE
  AddInside = FALSE
  FloorChunks = FALSE
INVARIANTS Complete Exactly Disjoint
PROPERTY Returns
CHECK_DEADLOCK FALSE
