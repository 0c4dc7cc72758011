SPECIFICATION Spec
CONSTANT NCyc = 12
CHECK_DEADLOCK FALSE
