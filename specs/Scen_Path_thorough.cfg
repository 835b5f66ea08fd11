SPECIFICATION Spec
CONSTANTS
  MaxItems = 6
  MaxLimit = 7
POSTCONDITION Written
CHECK_DEADLOCK FALSE
