SPECIFICATION Spec
CONSTANTS MaxReads = 2
          Repss <- RepsQuick
          Bases = {1}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Fits Default Emit
PROPERTY Atomic
