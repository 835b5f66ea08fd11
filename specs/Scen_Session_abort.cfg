SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Acts = {"abort"}
CHECK_DEADLOCK FALSE
