SPECIFICATION Spec
CONSTANTS
 Procs = {2, 3, 4}
 Late = TRUE
 Programs <- ProgDef
CHECK_DEADLOCK FALSE
INVARIANTS NoneFails OwnFiles AllThere NoStray Emit
