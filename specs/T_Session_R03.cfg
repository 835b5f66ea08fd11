SPECIFICATION TSpec
CONSTANT Focus = "R03"
CHECK_DEADLOCK FALSE
