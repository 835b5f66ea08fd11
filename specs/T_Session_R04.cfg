SPECIFICATION TSpec
CONSTANT Focus = "R04"
CHECK_DEADLOCK FALSE
