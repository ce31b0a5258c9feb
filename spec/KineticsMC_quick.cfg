SPECIFICATION Spec
CONSTANTS
  Steps <- StepsQuick
  Den = 2
  NetSize = 2
INVARIANTS SitesBalanced Emit ElementsBalanced Derivative FreeNonNegative
CHECK_DEADLOCK FALSE
