SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2, 3}
 Late = TRUE
 Programs <- ProgFew
VIEW View
INVARIANTS NoneFails OwnFiles AllThere NoStray Emit
PROPERTY Ends
