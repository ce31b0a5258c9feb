SPECIFICATION Spec
CONSTANTS NJobs = 2
          Values = {1, 2}
          MaxOps = 5
CHECK_DEADLOCK FALSE
INVARIANTS Own Complete Fresh Shown Resumes Kept Emit
