SPECIFICATION TSpec
CONSTANT Focus = "R01"
CHECK_DEADLOCK FALSE
