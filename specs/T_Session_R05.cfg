SPECIFICATION TSpec
CONSTANT Focus = "R05"
CHECK_DEADLOCK FALSE
