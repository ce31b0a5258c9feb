SPECIFICATION Spec
CONSTANTS Regs = {1, 2}
          Points <- Pts
          Vectors <- Vecs
          Elements = {"V", "A", "B"}
          MaxOps = 4
          EmitAt = 1
          MaxLen = 3
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Idempotent HoldsBoth Sound Translates MovesBack Sizes Emit
