SPECIFICATION Spec
CONSTANTS
  MaxSize = 5
  E = 3
  Reach = 17
  Levels = {0, 90, 200, 255}
INVARIANTS LookupOK BumpOK
POSTCONDITION Written
CHECK_DEADLOCK FALSE
