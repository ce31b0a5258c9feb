SPECIFICATION Spec
CONSTANTS Regs = {1, 2}
          Points <- Pts
          Vectors <- Vecs
          Elements = {"V", "A"}
          MaxOps = 3
          EmitAt = 1
          MaxLen = 2
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Idempotent HoldsBoth Sound Translates MovesBack Sizes Emit
