SPECIFICATION Spec
CONSTANTS
  Temps = {150, 200, 300, 450, 700, 1000}
  Presses = {101325, 1000}
INVARIANTS PressureLaw MassLaw Cooling Falling Emit
CHECK_DEADLOCK FALSE
