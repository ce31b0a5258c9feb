SPECIFICATION Spec
CONSTANTS
  Steps <- StepsQuick
  Den = 3
  NetSize = 2
INVARIANTS SitesBalanced Emit ElementsBalanced Derivative FreeNonNegative
CHECK_DEADLOCK FALSE
