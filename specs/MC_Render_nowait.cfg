SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  MaxN = 2
  MaxClock = 2
  Rows = {1, 2}
  Workers = {w1, w2}
  Buffers = 1
  Bug = "nowait"
INVARIANTS ImageExact RowsDisjoint Quiet ReportedImages

CHECK_DEADLOCK FALSE
