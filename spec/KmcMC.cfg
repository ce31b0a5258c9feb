SPECIFICATION Spec
CONSTANTS
  MaxRecs = 5
  Sizes = {1, 2, 3}
  Every = {1}
  Starts = {0, 24}
  Lazy = TRUE
  FromStart = TRUE
  Dts = {4, 11}
INVARIANTS CovWhole TofWhole EvtWhole ReadableFiles Bounded Written Shares Partition Accounted Possibly Emit
CHECK_DEADLOCK FALSE
