SPECIFICATION Spec
CONSTANT NGhost = 4
CHECK_DEADLOCK FALSE
