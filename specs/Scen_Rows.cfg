SPECIFICATION Spec
CONSTANTS
  MaxH = 5
  MaxW = 4
INVARIANT Feasible
CHECK_DEADLOCK FALSE
