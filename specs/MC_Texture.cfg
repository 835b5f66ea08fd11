SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  E = 2
  Reach = 9
  Levels = {0, 200, 255}
INVARIANTS LookupOK BumpOK
POSTCONDITION Written
CHECK_DEADLOCK FALSE
