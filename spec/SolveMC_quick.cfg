SPECIFICATION Spec
CONSTANTS MaxAttempts = 2
          MaxIter = {2}
          Ints <- IntsQuick
          Lies = {"no", "lo"}
          Wide = FALSE
          Partial = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound Protocol Heard Asked Started SlopeOk NoArchive GuessPhysical Grid Emit
