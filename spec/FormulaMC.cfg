SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Alphabet = {"C", "l", "3", "1", "(", ")"}
CHECK_DEADLOCK FALSE
INVARIANTS Concat Grouping Prefix Balance Emit
