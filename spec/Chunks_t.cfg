SPECIFICATION Spec
CONSTANTS
  Lens = {1, 2, 3, 4, 7, 8, 9}
  Chunk = 3
  Shares = 3
  SharedIndex = FALSE
  EarlyDone = FALSE
  AddInside = FALSE
  FloorChunks = FALSE
INVARIANTS Complete Exactly Disjoint
PROPERTY Returns
CHECK_DEADLOCK FALSE
