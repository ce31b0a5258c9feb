SPECIFICATION Spec
CONSTANTS MaxAttempts = 4
          MaxIter = {1, 3, 5}
          Ints <- IntsFull
          Lies = {"no", "lo", "hi"}
          Wide = TRUE
          Partial = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Sound Protocol Heard Asked Started SlopeOk NoArchive GuessPhysical Grid Emit
