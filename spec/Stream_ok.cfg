SPECIFICATION Spec
CONSTANTS
  Callers = {p1, p2, p3}
  Lens = {0, 1, 3}
  MaxReads = 3
  NoAdvance = FALSE
  SplitAdvance = FALSE
  Dirty = FALSE
  BlockRound = FALSE
INVARIANTS NoReuse Contiguous OldContentsIrrelevant
PROPERTIES Returns
CHECK_DEADLOCK FALSE
