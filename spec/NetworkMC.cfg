SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQuick
  TSPool <- TSQuick
  MaxCopies = 2
INVARIANTS ElementsConserved SitesConserved OnlyBadRejected ReverseOK
CHECK_DEADLOCK FALSE
