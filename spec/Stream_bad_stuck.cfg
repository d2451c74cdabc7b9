SPECIFICATION Spec
CONSTANTS
  Callers = {p1, p2, p3}
  Lens = {0, 1, 3}
  MaxReads = 4
  NoAdvance = TRUE
  SplitAdvance = FALSE
  Dirty = FALSE
  BlockRound = FALSE
INVARIANTS NoReuse Contiguous OldContentsIrrelevant
CHECK_DEADLOCK FALSE
