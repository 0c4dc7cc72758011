SPECIFICATION OSpec
CONSTANT NGhost = 4
CHECK_DEADLOCK FALSE
