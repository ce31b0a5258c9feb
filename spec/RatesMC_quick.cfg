SPECIFICATION Spec
CONSTANTS
  Temps = {300, 650}
  Barriers = {0, 2000}
  DGs <- DGsDef
  MaxLen = 2
INVARIANTS DetailedBalance PressureShift ReverseBounded OneK Emit
VIEW View0
CHECK_DEADLOCK FALSE
