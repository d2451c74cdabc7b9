SPECIFICATION Spec
CONSTANTS
  Callers = {p1, p2, p3}
  Lens = {0, 1, 3}
  MaxReads = 4
  NoAdvance = FALSE
  SplitAdvance = FALSE
  Dirty = FALSE
  BlockRound = TRUE
INVARIANTS NoReuse Contiguous OldContentsIrrelevant
CHECK_DEADLOCK FALSE
