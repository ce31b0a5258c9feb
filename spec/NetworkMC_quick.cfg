SPECIFICATION Spec
CONSTANTS
  Pool <- PoolSmall
  TSPool <- TSSmall
  MaxCopies = 2
INVARIANTS ElementsConserved SitesConserved OnlyBadRejected ReverseOK
CHECK_DEADLOCK FALSE
