SPECIFICATION Spec
CONSTANTS
  M = 8
  Memory = FALSE
INVARIANTS Mass Depths
CHECK_DEADLOCK FALSE
