SPECIFICATION Spec
CONSTANTS
  Bug = "none"
  MaxGroup = 2
  MaxTop = 2
  Full = TRUE
INVARIANTS Conserved Complete
POSTCONDITION Written
CHECK_DEADLOCK FALSE
