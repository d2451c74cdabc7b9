SPECIFICATION Spec
CONSTANTS
  Lens = {3}
  Chunk = 2
  Shares = 2
  SharedIndex = FALSE
  EarlyDone = FALSE
  AddInside = FALSE
  FloorChunks = TRUE
INVARIANTS Complete Exactly Disjoint
PROPERTY Returns
CHECK_DEADLOCK FALSE
