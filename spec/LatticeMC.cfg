SPECIFICATION Spec
CONSTANTS MaxReads = 2
          Repss <- RepsFull
          Bases = {1, 2}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Fits Default Emit
PROPERTY Atomic
