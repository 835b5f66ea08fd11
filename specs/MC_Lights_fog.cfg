SPECIFICATION Spec
CONSTANTS
  Bug = "fog"
  MaxGroup = 3
  MaxTop = 1
  Full = FALSE
INVARIANTS Conserved Complete

CHECK_DEADLOCK FALSE
