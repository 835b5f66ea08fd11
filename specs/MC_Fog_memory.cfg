SPECIFICATION Spec
CONSTANTS
  M = 8
  Memory = TRUE
INVARIANTS Mass Depths
CHECK_DEADLOCK FALSE
