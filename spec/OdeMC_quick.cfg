SPECIFICATION Spec
CONSTANTS Times = {0, 3}
          Spans = {1, 2}
          Intervals = {1, 2}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Recorded Overshoot Complete Current Emit
PROPERTY Ends
