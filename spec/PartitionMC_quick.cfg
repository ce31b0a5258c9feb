SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxP = 4
CHECK_DEADLOCK FALSE
INVARIANTS Balanced Complete NoOverlap MasterOnly Emit
PROPERTY Ends
