SPECIFICATION Spec
CONSTANTS Times = {0, 2, 5}
          Spans = {1, 2}
          Intervals = {1, 2, 3}
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Recorded Overshoot Complete Current Emit
PROPERTY Ends
