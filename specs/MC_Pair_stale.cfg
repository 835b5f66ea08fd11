SPECIFICATION Spec
CONSTANTS
  PairConfigs <- MCConfigs
  Acts = {"abort", "drop"}
  MaxActs = 1
  MaxN = 2
  Sharing = "stale"
INVARIANTS Independent OnlyOwn
CHECK_DEADLOCK FALSE
