SPECIFICATION Spec
CONSTANTS
  Levels <- LevelsDef
  Shifts <- ShiftsDef
  MaxLen = 3
INVARIANTS FwdMinusRev Cycle Barrierless Emit
VIEW View0
CHECK_DEADLOCK FALSE
