SPECIFICATION Spec
CONSTANTS
  Temps = {200, 300, 450, 1000}
  Barriers = {0, 300, 2000}
  DGs <- DGsFull
  MaxLen = 2
INVARIANTS DetailedBalance PressureShift ReverseBounded OneK Emit
VIEW View0
CHECK_DEADLOCK FALSE
