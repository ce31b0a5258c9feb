SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2, 3, 4}
 Late = TRUE
 Programs <- ProgDef
VIEW View
INVARIANTS NoneFails OwnFiles AllThere NoStray Emit
PROPERTY Ends
