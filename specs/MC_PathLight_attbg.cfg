SPECIFICATION Spec
CONSTANTS
  MaxSurf = 3
  Limits <- MCLimits
  Weights <- MCWeights
  Bug = "attbg"
INVARIANT Promise
CHECK_DEADLOCK FALSE
