SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Acts = {"drop"}
CHECK_DEADLOCK FALSE
