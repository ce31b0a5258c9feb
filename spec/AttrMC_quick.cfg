SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Insts = {1, 2}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Typed Emit
PROPERTIES Once Isolated RefusedKeeps
