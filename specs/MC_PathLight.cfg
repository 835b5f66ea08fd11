SPECIFICATION Spec
CONSTANTS
  MaxSurf = 3
  Limits <- MCLimits
  Weights <- MCWeights
  Bug = "none"
INVARIANT Promise
CHECK_DEADLOCK FALSE
