SPECIFICATION Spec
CONSTANTS Forms = {"CO_g", "12C2Cl10_s", "3*_t", "C-O2H_2s", "2CO_l", "*_s"}
          MaxTerms = 2
CHECK_DEADLOCK FALSE
INVARIANTS Readable Braces Backwards Algebra Emit
