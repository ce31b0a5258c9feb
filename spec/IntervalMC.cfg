SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Bounds = {0, 1, 2, 5}
CHECK_DEADLOCK FALSE
INVARIANTS Everywhere Emit
PROPERTY Sticky
