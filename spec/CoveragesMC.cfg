SPECIFICATION Spec
CONSTANTS
  D = 6
  Lo <- LoDef
  Hi = 9
  Totals = {1, 3, 6, 8}
INVARIANTS Within SumWithin Fixpoint KeepsOrder Emit
CHECK_DEADLOCK FALSE
