SPECIFICATION Spec
CONSTANTS MaxRuns = 2
          MaxOps = 2
          EmitAt = 1
          Coarsers = {1, 3}
          Stale = FALSE
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Consistent Current SolveCurrent Converged Preferred Emit
PROPERTIES Survives
