SPECIFICATION Spec
CONSTANTS MaxAttempts = 3
          MaxIter = {1, 3}
          Ints <- IntsFull
          Lies = {"no", "lo", "hi"}
          Wide = TRUE
          Partial = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound Protocol Heard Asked Started SlopeOk NoArchive GuessPhysical Grid Emit
