SPECIFICATION Spec
CONSTANTS NRxn = 1
          Barriers = {0, 500000, 1500000}
          Heats = {1000000, 2000000, 2500000}
          MaxOps = 4
CHECK_DEADLOCK FALSE
INVARIANTS Total Latest Emit
