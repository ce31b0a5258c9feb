SPECIFICATION Spec
CONSTANTS MaxRuns = 6
          MaxOps = 6
          EmitAt = 6
          Coarsers = {1, 2, 3}
          Stale = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Consistent Current SolveCurrent Converged Preferred Emit
