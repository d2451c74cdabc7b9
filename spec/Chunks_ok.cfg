SPECIFICATION Spec
CONSTANTS
  Lens = {1, 2, 3, 4, 5, 6}
  Chunk = 2
  Shares = 2
  SharedIndex = FALSE
  EarlyDone = FALSE
  AddInside = FALSE
  FloorChunks = FALSE
INVARIANTS Complete Exactly Disjoint
PROPERTY Returns
CHECK_DEADLOCK FALSE
