SPECIFICATION Spec
CONSTANTS Values = {0, 1, 3}
          Slopes = {0, 1}
          Dim = 1
          M = 3
CHECK_DEADLOCK FALSE
INVARIANTS Descends Tried Root Full Emit
PROPERTY Stops
