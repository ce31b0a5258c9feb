SPECIFICATION Spec
CONSTANTS Values = {0, 2}
          Slopes = {1}
          Dim = 2
          M = 2
CHECK_DEADLOCK FALSE
INVARIANTS Descends Tried Root Full Emit
PROPERTY Stops
