SPECIFICATION Spec
CONSTANTS NJobs = 2
          Values = {1}
          MaxOps = 4
CHECK_DEADLOCK FALSE
INVARIANTS Own Complete Fresh Shown Resumes Kept Emit
