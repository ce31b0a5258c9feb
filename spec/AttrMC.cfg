SPECIFICATION Spec
CONSTANTS MaxOps = 6
          Insts = {1, 2, 3}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Typed Emit
PROPERTIES Once Isolated RefusedKeeps
