SPECIFICATION Spec
CONSTANT NG = 4
CHECK_DEADLOCK FALSE
