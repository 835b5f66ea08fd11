SPECIFICATION Spec
CONSTANTS
  MaxSurf = 3
  Limits <- MCLimits
  Weights <- MCWeights
  Bug = "nocap"
INVARIANT Promise
CHECK_DEADLOCK FALSE
