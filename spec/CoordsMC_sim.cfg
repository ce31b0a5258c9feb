SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3}
          Points <- Pts
          Vectors <- Vecs
          Elements = {"V", "A", "B"}
          MaxOps = 12
          EmitAt = 12
          MaxLen = 6
CHECK_DEADLOCK FALSE
INVARIANTS Emit
