SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
          Cfgs = {"k1", "k2", "k3", "k4", "a1", "kmc"}
          Engs = {"e1", "e2", "e4", "e5", "e6"}
          Kinds = {"constants", "rates", "net", "tof", "residual", "jacobian", "symrates", "attrs"}
          Cvgs = {"c1", "c2"}
          MaxOps = 24
          EmitAt = 23
          Shared = FALSE
CHECK_DEADLOCK FALSE

INVARIANTS Alone Private Emit
