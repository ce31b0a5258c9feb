SPECIFICATION Spec
CONSTANTS Slots = {1}
          Cfgs = {"k1"}
          Engs = {"e1", "e2", "e4", "e5", "e6"}
          Kinds = {"rates"}
          Cvgs = {"c1", "c2"}
          MaxOps = 4
          EmitAt = 4
          Shared = FALSE
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Alone Private Emit
