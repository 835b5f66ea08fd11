SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  MaxLimit = 5
POSTCONDITION Written
CHECK_DEADLOCK FALSE
