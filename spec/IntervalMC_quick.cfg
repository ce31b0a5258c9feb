SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Bounds = {0, 1, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Everywhere Emit
PROPERTY Sticky
