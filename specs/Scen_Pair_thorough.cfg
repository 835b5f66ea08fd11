SPECIFICATION ScenSpec
CONSTANTS
  PairConfigs <- ScenConfigs
  Acts = {"abort", "drop"}
  MaxActs = 0
  MaxN = 3
  Sharing = "none"
INVARIANTS Independent OnlyOwn
CHECK_DEADLOCK FALSE
