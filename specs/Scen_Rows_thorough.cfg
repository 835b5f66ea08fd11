SPECIFICATION Spec
CONSTANTS
  MaxH = 6
  MaxW = 4
INVARIANT Feasible
CHECK_DEADLOCK FALSE
