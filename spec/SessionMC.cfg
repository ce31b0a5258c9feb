SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
          Cfgs = {"k1", "k2"}
          Engs = {"e1", "e2"}
          Kinds = {"rates"}
          Cvgs = {"c1"}
          MaxOps = 7
          EmitAt = 7
          Shared = FALSE
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Alone Private Emit
