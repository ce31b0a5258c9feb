SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {"C", "O", "l", "2", "(", ")"}
CHECK_DEADLOCK FALSE
INVARIANTS Concat Grouping Prefix Balance Emit
