SPECIFICATION Spec
CONSTANTS
  MaxSurf = 3
  Limits <- MCLimits
  Weights <- MCWeights
  Bug = "late"
INVARIANT Promise
CHECK_DEADLOCK FALSE
