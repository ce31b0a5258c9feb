SPECIFICATION Spec
CONSTANTS MaxDefs = 1
          MaxAsks = 2
          Reset = TRUE
          Wide = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Aligned Paired Counted Refused Emit
