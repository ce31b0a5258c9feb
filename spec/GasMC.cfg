SPECIFICATION Spec
CONSTANTS
  Temps = {150, 175, 200, 250, 273, 298, 300, 325, 350, 400, 450, 499, 500, 501, 600, 650, 700, 800, 900, 1000, 1200}
  Presses = {101325, 1000, 1, 5000000, 33333}
INVARIANTS PressureLaw MassLaw Cooling Falling Emit
CHECK_DEADLOCK FALSE
