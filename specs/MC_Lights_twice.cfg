SPECIFICATION Spec
CONSTANTS
  Bug = "twice"
  MaxGroup = 3
  MaxTop = 1
  Full = FALSE
INVARIANTS Conserved Complete

CHECK_DEADLOCK FALSE
