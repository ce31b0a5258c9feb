SPECIFICATION Spec
CONSTANTS NRxn = 2
          Barriers = {0, 500000, 500005, 1500000}
          Heats = {1000000, 2000000, 2500000}
          MaxOps = 3
CHECK_DEADLOCK FALSE
INVARIANTS Total Latest Emit
