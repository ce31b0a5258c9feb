SPECIFICATION Spec
CONSTANTS
  MaxRecs = 3
  Sizes = {1, 2}
  Every = {1, 2}
  Starts = {0, 24}
  Lazy = TRUE
  FromStart = TRUE
  Dts = {6}
INVARIANTS CovWhole TofWhole EvtWhole ReadableFiles Bounded Written Shares Partition Accounted Possibly Emit
CHECK_DEADLOCK FALSE
