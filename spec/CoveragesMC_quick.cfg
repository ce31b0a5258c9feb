SPECIFICATION Spec
CONSTANTS
  D = 4
  Lo <- LoDef
  Hi = 6
  Totals = {2, 4}
INVARIANTS Within SumWithin Fixpoint KeepsOrder Emit
CHECK_DEADLOCK FALSE
