SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  MaxN = 2
  MaxClock = 2
  Rows = {1, 2}
  Workers = {w1, w2}
  Buffers = 3
  Bug = "none"
INVARIANTS ImageExact RowsDisjoint Quiet ReportedImages
PROPERTY Refines
CHECK_DEADLOCK FALSE
