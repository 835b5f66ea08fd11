SPECIFICATION Spec
CONSTANTS
  MaxSurf = 5
  Limits <- MCLimits
  Weights <- MCWeights
  Bug = "none"
INVARIANT Promise
CHECK_DEADLOCK FALSE
