SPECIFICATION Spec
CONSTANTS MaxRuns = 2
          MaxOps = 3
          EmitAt = 1
          Coarsers = {1, 2, 3}
          Stale = FALSE
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Consistent Current SolveCurrent Converged Preferred Emit
PROPERTIES Survives
